-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* The picture of a presentation.                                          *)
(*                                                                         *)
(* A picture is a sequence of bands [y, e, r]: the rows y .. e-1, which    *)
(* are alike, and their runs r, [x, e, c]: the columns x .. e-1 have       *)
(* colour c, a triple.  The screen is black, or of the background colour it *)
(* was given.  On it, each active visible media paints its rectangle     *)
(* with its background and then, if it is an image, with the image         *)
(* stretched over it: four quarters, each of one colour.  If it is a text,  *)
(* glyphs are painted where the text is aligned to; their shapes are not   *)
(* described, but that they are there, in the colour of the font.  If it   *)
(* has the focus, a frame is painted along its edges.  What an input       *)
(* transition has not revealed yet is not painted.  No other contents of   *)
(* media are described.                                                    *)
(*                                                                         *)
(* What is painted at a point may not be fully determined: an edge that    *)
(* moves is known up to rounding, the edges of an image are blurred,       *)
(* objects of the same z-index and z-order may be painted in any order.    *)
(***************************************************************************)
EXTENDS Ginga

Background(S, o) == IF GetP(S, o, "background") # "" THEN GetP(S, o, "background")
                    ELSE GetP(S, o, "backgroundColor")

Rank(v) == IF v = "" THEN 0 ELSE Str[v].x.n \div 100

\* Whatever colour.
ANY == <<-1, -1, -1>>

\* The quarters of an image, or of the frame of a video: top left, top right,
\* bottom left, bottom right.
Quarters(S, o) == IF Str[GetP(S, o, "type")].image THEN Str[GetP(S, o, "uri")].q
                  ELSE S.av[o].shown

\* A text: its colour and, if it has one, the colour behind it; whether it is
\* known, and shows anything; where it is, in a span: one word takes no more
\* room than a ROOM.
RoomX == 46
RoomY == 34
Zone(p, al, n, t) ==
  LET lo == p.x[1]  hi == p.x[2]
  IN IF t = <<>> \/ ~p.ok \/ p.w[1] < n THEN p
     ELSE IF t[1].stretched THEN p
     ELSE [ok |-> TRUE, w |-> <<n, n>>,
           x |-> CASE al = "start" -> <<lo, hi>>
                   [] al = "end"   -> <<lo + p.w[1] - n, hi + p.w[2] - n>>
                   [] al = "mid"   -> <<lo + (p.w[1] - n) \div 2,
                                        hi + (p.w[2] - n + 1) \div 2>>]
Align(v) == IF v \in {"center", "middle"} THEN "mid"
            ELSE IF v \in {"right", "bottom"} THEN "end" ELSE "start"

Text(S, o) ==
  IF GetP(S, o, "type") # "text/plain" THEN <<>>
  ELSE LET fg == GetP(S, o, "fontColor")  bg == GetP(S, o, "fontBgColor")
       IN << [ fg |-> Str[IF fg = "" THEN "black" ELSE fg].c,
               bg |-> IF bg = "" THEN <<>> ELSE <<Str[bg].c>>,
               what |-> Str[GetP(S, o, "uri")].text,
               tol |-> IF Str[GetP(S, o, "uri")].text = "solid" THEN 24
                       ELSE 110,
               stretched |-> {"width", "height"} \cap DOMAIN S.an[o] # {} ] >>

\* The frame of the object that has the focus: its colour and opacity.
Frame(S, o) ==
  IF ~PlayerFocused(S, o) THEN <<>>
  ELSE LET c == GetP(S, o, "focusBorderColor")
       IN << [ c |-> Str[IF c = "" THEN "yellow" ELSE c].c,
               a |-> Opacity(GetP(S, o, "focusBorderTransparency"))[1] ] >>

\* The part of span p that a transition of name n reveals; the whole is known
\* to be revealed when it is over.
Wiped(S, o, n) == n \in DOMAIN S.an[o] /\ S.pt[o] - S.an[o][n].at < S.an[o][n].d
Shown(S, o, n, p) ==
  IF Wiped(S, o, n) THEN [p EXCEPT !.w = Progress(S, o, S.an[o][n])[1]] ELSE p

\* Its background comes gradually out of nothing.
Appears(S, o) ==
  /\ "background" \in DOMAIN S.an[o]
  /\ LET x == S.an[o]["background"] IN x.new /\ S.pt[o] - x.at < x.d

\* How much a transition shows is known while the rectangle stays where it was
\* when it began.
Unclear(S, o) ==
  \/ \E n \in {"wipe:x", "wipe:y"} :
        /\ Wiped(S, o, n)
        /\ LET g == <<PlaceX(S, o), PlaceY(S, o)>>
           IN S.an[o][n].geo # g \/ g[1].x[1] < 0 \/ g[2].x[1] < 0
  \/ Wiped(S, o, "wipe:other")
  \/ /\ {"wipe:other", "transparency"} \subseteq DOMAIN S.an[o]
     /\ LET w == S.an[o]["wipe:other"]
        IN S.an[o]["transparency"].at <= w.at + w.d
  \/ "wipe:diagonal" \in DOMAIN S.an[o]
  \/ Appears(S, o)

Layer(S, o) ==
  LET x == PlaceX(S, o)  y == PlaceY(S, o)  t == Text(S, o)
  IN
  [ o |-> o, x |-> x, y |-> y,
    u |-> IF Unclear(S, o) THEN x ELSE Shown(S, o, "wipe:x", x),
    v |-> IF Unclear(S, o) THEN y ELSE Shown(S, o, "wipe:y", y),
    z |-> <<Rank(GetP(S, o, "zIndex")), Rank(GetP(S, o, "zOrder"))>>,
    c |-> IF Background(S, o) = "" /\ "background" \notin DOMAIN S.an[o]
          THEN <<>>
          ELSE LET v == IF "background" \in DOMAIN S.an[o]
                        THEN Drawn(S, o, "background")
                        ELSE Single(Str[Background(S, o)].c)
               IN <<[i \in DOMAIN v |-> v[i][1]]>>,
    q |-> Quarters(S, o),
    f |-> Frame(S, o),
    t |-> t,
    tx |-> Zone(x, Align(GetP(S, o, "horzAlign")), RoomX, t),
    ty |-> Zone(y, Align(GetP(S, o, "vertAlign")), RoomY, t),
    a |-> Drawn(S, o, "transparency")[1][1],
    any |-> Unclear(S, o) ]

\* The settings object paints nothing.
Layers(S) ==
  {Layer(S, o) : o \in {p \in ObjNums(S) :
                          /\ Type(S, p) = "media" /\ ~Sleeping(S, p)
                          /\ S.pl[p] # 0
                          /\ GetP(S, p, "visible") # "false"
                          /\ \/ Background(S, p) # ""
                             \/ Quarters(S, p) # <<>>
                             \/ Text(S, p) # <<>>
                             \/ Frame(S, p) # <<>>}}

\* The span certainly, and possibly, contains point i, or is near it.
Surely(p, i) == p.ok /\ p.x[2] <= i /\ i < p.x[1] + p.w[1]
Near0(p, i, m) == (p.w[2] > 0) /\ (p.ok => p.x[1] - m <= i /\ i < p.x[2] + p.w[2] + m)
Maybe(p, i) == Near0(p, i, 0)

\* Points near the edges and the middle of an image that may be blurred.
BLUR == 3
Half(p) == <<p.x[1] + (p.w[1] \div 2), p.x[2] + ((p.w[2] + 1) \div 2)>>
Part(p, i) ==
  IF ~p.ok THEN 2
  ELSE IF p.x[2] + BLUR <= i /\ i < Half(p)[1] - BLUR THEN 0
  ELSE IF Half(p)[2] + BLUR <= i /\ i < p.x[1] + p.w[1] - BLUR THEN 1
  ELSE 2

\* What is stretched is blurred.
Blurred(l) == IF l.t = <<>> THEN l.q # <<>> ELSE l.t[1].stretched

\* So far from its edges a frame may be painted.
WIDE == 4

Edges(l, p, r) ==
  {p.x[1], p.x[2], p.x[1] + p.w[1], p.x[2] + p.w[2],
   r.x[1] + r.w[1], r.x[2] + r.w[2]}
  \cup (IF l.t = <<>> THEN {}
        ELSE LET z == IF p = l.x THEN l.tx ELSE l.ty
             IN {z.x[1], z.x[2] + z.w[2]})
  \cup (IF l.f = <<>> THEN {}
        ELSE UNION {{e - WIDE, e - 1, e, e + 1, e + WIDE} :
                      e \in {p.x[1], p.x[2], p.x[1] + p.w[1], p.x[2] + p.w[2]}})
  \cup IF ~Blurred(l) THEN {}
       ELSE {p.x[1] - BLUR, p.x[2] + BLUR, Half(p)[1] - BLUR, Half(p)[2] + BLUR,
             p.x[1] + p.w[1] - BLUR, p.x[2] + p.w[2] + BLUR}

\* Levels of z in use, lowest first.
Lower(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Levels(L) == SetToSortSeq({l.z : l \in L}, Lower)

Blend(c, d, a) == IF a = 255 THEN <<c[1], c[2], c[3]>>
                  ELSE IF a = 0 THEN d
                  ELSE IF d = ANY THEN ANY
                  ELSE [i \in 1 .. 3 |-> (c[i] * a + d[i] * (255 - a)) \div 255]

\* Colours that e may be once the text of l is painted over it at x, y.
Written(l, e, x, y) ==
  IF ~Maybe(l.tx, x) \/ ~Maybe(l.ty, y) THEN {e}
  ELSE IF l.t[1].what = "none" /\ ~l.t[1].stretched
  THEN {e} \cup {Blend(l.t[1].bg[i], e, l.a) : i \in DOMAIN l.t[1].bg}
  ELSE {ANY}

\* Colour e once the frame of l is painted over it at x, y, a point of l: the
\* points along the edges have the frame's colour, those near them may.
OnEdge(p, i) == /\ p.ok /\ p.x[1] = p.x[2] /\ p.w[1] = p.w[2]
                /\ i \in {p.x[1], p.x[1] + p.w[1] - 1}
ByEdge(p, i) == ~p.ok \/ i < p.x[2] + WIDE \/ i >= p.x[1] + p.w[1] - WIDE
Framed(l, e, x, y) ==
  IF l.f = <<>> THEN e
  ELSE IF OnEdge(l.x, x) \/ OnEdge(l.y, y) THEN Blend(l.f[1].c, e, l.f[1].a)
  ELSE IF ByEdge(l.x, x) \/ ByEdge(l.y, y) THEN ANY
  ELSE e

\* Colours that d may be once l is painted over it.
Filled(l, d, x, y) ==
  LET e == IF l.c = <<>> THEN d ELSE Blend(l.c[1], d, l.a)
      i == Part(l.x, x)  j == Part(l.y, y)
  IN IF l.a = 0 THEN {d}
     ELSE IF l.t # <<>> THEN Written(l, e, x, y)
     ELSE IF l.q = <<>> THEN {e}
     ELSE IF i = 2 \/ j = 2 THEN {ANY}
     ELSE LET q == l.q[1 + i + 2 * j] IN {Blend(q, e, (q[4] * l.a) \div 255)}

Laid(l, d, x, y) ==
  IF l.any THEN {ANY} ELSE {Framed(l, e, x, y) : e \in Filled(l, d, x, y)}

Reach(l) == IF l.f # <<>> THEN WIDE ELSE IF Blurred(l) THEN BLUR ELSE 0

\* Colours that layer l may leave at a point that may have colours C.
Paint(C, l, x, y) ==
  LET new == UNION {Laid(l, d, x, y) : d \in C}
  IN IF Surely(l.u, x) /\ Surely(l.v, y) THEN new
     ELSE IF Maybe(l.u, x) /\ Maybe(l.v, y)
     THEN C \cup new \cup (IF l.f = <<>> THEN {} ELSE {ANY})
     ELSE IF /\ Reach(l) > 0
             /\ l.f # <<>> \/ ~(Maybe(l.x, x) /\ Maybe(l.y, y))
             /\ Near0(l.x, x, Reach(l)) /\ Near0(l.y, y, Reach(l))
     THEN C \cup {ANY}
     ELSE C

\* All orders of a level (more than three: only what opaque ones may do).
Colours(bg, L, x, y) ==
  FoldLeft(LAMBDA C, z :
             LET K == {l \in L : l.z = z}
             IN IF Cardinality(K) = 1
                THEN Paint(C, CHOOSE l \in K : TRUE, x, y)
                ELSE UNION {FoldLeft(LAMBDA E, l : Paint(E, l, x, y), C, q) :
                              q \in SetToSeqs(K)},
           {bg}, Levels(L))

Close(c, d, m) == \A i \in 1 .. 3 : c[i] - d[i] <= m /\ d[i] - c[i] <= m

\* Colours of the layers K are known up to rounding, of each that is not opaque.
Rounded(K) ==
  3 + 2 * Max0(Cardinality({l \in K : l.a \notin {0, 255}}) - 1)
Near(c, d, m) == c = ANY \/ Close(c, d, m)

Between(V, a, b) == {a} \cup {v \in V : a < v /\ v < b}

\* Points of the picture whose colour is not as specified, with what it could
\* have been.
Wrongs(S, px) ==
  LET L == Layers(S)
      bg == IF S.bg = "" THEN <<0, 0, 0>> ELSE Str[S.bg].c
      X == UNION {Edges(l, l.x, l.u) : l \in L}
      Y == UNION {Edges(l, l.y, l.v) : l \in L}
      bad(b) ==
        UNION {LET K == {l \in L : Near0(l.y, y, Reach(l))}
                   m == Rounded(K)
               IN UNION {{<<x, y, Colours(bg, K, x, y), b.r[i].c>> :
                            x \in {x \in Between(X, b.r[i].x, b.r[i].e) :
                                     ~\E c \in Colours(bg, K, x, y) :
                                        Near(c, b.r[i].c, m)}} : i \in DOMAIN b.r}
               : y \in Between(Y, b.y, b.e)}
  IN UNION {bad(px[j]) : j \in DOMAIN px}

\* A point of the colour c where l has its text.
Shows(l, px, c) ==
  \E j \in DOMAIN px : \E y \in px[j].y .. px[j].e - 1 :
     /\ Maybe(l.ty, y)
     /\ \E i \in DOMAIN px[j].r :
          LET r == px[j].r[i]
          IN /\ Close(r.c, c, l.t[1].tol)
             /\ \E x \in r.x .. r.e - 1 : Maybe(l.tx, x)

\* Spans have no point in common, not even with a frame around one.
Apart(p, q) == \/ p.x[2] + p.w[2] + WIDE < q.x[1]
               \/ q.x[2] + q.w[2] + WIDE < p.x[1]

\* Texts nothing hides that are not shown.
Unwritten(S, px) ==
  LET L == Layers(S)
      w == px[1].r[Len(px[1].r)].e
      h == px[Len(px)].e
      fits(z, n) == z.ok /\ z.x[1] >= 0 /\ z.x[2] + z.w[2] <= n
      clear(l) ==
        /\ l.t # <<>> /\ ~l.any /\ l.a = 255 /\ l.u = l.x /\ l.v = l.y
        /\ l.t[1].what \in {"some", "solid"} /\ ~l.t[1].stretched
        /\ l.x.w[1] >= RoomX /\ l.y.w[1] >= RoomY
        /\ fits(l.tx, w) /\ fits(l.ty, h)
        /\ \A m \in L \ {l} : \/ Lower(m.z, l.z)
                               \/ (m.x.ok /\ Apart(m.x, l.tx))
                               \/ (m.y.ok /\ Apart(m.y, l.ty))
  IN {l \in L : /\ clear(l)
                /\ \/ ~Shows(l, px, l.t[1].fg)
                   \/ (l.t[1].bg # <<>> /\ ~Shows(l, px, l.t[1].bg[1]))}

PictureOK(S, px) == Wrongs(S, px) = {} /\ Unwritten(S, px) = {}
Wrong(S, px) == IF Wrongs(S, px) # {}
                THEN CHOOSE w \in Wrongs(S, px) : TRUE
                ELSE CHOOSE l \in Unwritten(S, px) : TRUE
=============================================================================
