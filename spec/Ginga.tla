------------------------------- MODULE Ginga -------------------------------
(***************************************************************************)
(* The presentation machine of Ginga-NCL.                                  *)
(*                                                                         *)
(* A document (constant, see `Docs') is a tree of objects -- contexts,     *)
(* switches, media, the settings -- with events, links, ports and rules.   *)
(* A state S of the presentation is a record; every public call of the     *)
(* presenter (start, stop, tick, key, action on an event) is one step,     *)
(* `Do(S, a)', which runs the reaction it causes to quiescence.            *)
(*                                                                         *)
(* Conventions: objects and events are numbered from 1, 0 is "none".       *)
(* Times are milliseconds, -1 is "undefined".  Event states: 0 sleeping,   *)
(* 1 occurring, 2 paused.  Transitions: 1 start, 2 pause, 3 resume,        *)
(* 4 stop, 5 abort.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS
  Docs,      \* sequence of documents (records, see DocOK)
  Str,       \* string -> [r: rank in byte order, t: time it denotes (-1:
             \* none), o: object id it refers to, p: property it refers to,
             \* l: its elements if it is a comma-separated list, x: number,
             \* c: colour, sk: a step in time, av: a type of audio or video]
  Fuel       \* bound on the number of transitions tried in one call

START == 1  PAUSE == 2  RESUME == 3  STOP == 4  ABORT == 5
SLEEPING == 0  OCCURRING == 1  PAUSED == 2
FOCUS == "service.currentFocus"
\* Properties whose change is gradual when it has a duration.
Animated == {"background", "bounds", "height", "left", "location", "size",
             "top", "transparency", "width"}
SCRIPT == "application/x-ginga-NCLua"

-----------------------------------------------------------------------------
(* Document. *)

D(S)          == Docs[S.d]
ObjOf(S, e)   == D(S).evs[e].o
Type(S, o)    == D(S).objs[o].type
Parent(S, o)  == D(S).objs[o].parent
Lambda(S, o)  == D(S).objs[o].lambda
Evs(S, o)     == D(S).objs[o].evs
EvType(S, e)  == D(S).evs[e].ty
IsLambda(S, e) == D(S).objs[D(S).evs[e].o].lambda = e
IsCtx(S, o)   == o # 0 /\ D(S).objs[o].type = "ctx"
IsSwitch(S, o) == o # 0 /\ D(S).objs[o].type = "switch"
IsMedia(S, o) == o # 0 /\ D(S).objs[o].type \in {"media", "settings"}
ObjNums(S)    == 1 .. Len(D(S).objs)

\* The object an id denotes: its own id first, then the ids of references.
ObjById(S, id) ==
  LET own == SelectSeq([i \in ObjNums(S) |-> i],
                       LAMBDA i : D(S).objs[i].id = id)
      ali == SelectSeq([i \in ObjNums(S) |-> i],
                       LAMBDA i : \E k \in DOMAIN D(S).objs[i].aliases :
                                    D(S).objs[i].aliases[k].n = id)
  IN IF own # <<>> THEN own[1] ELSE IF ali # <<>> THEN ali[1] ELSE 0

\* Attribution event of property n of object o (0 if none).
AttrEv(S, o, n) ==
  LET x == SelectSeq(Evs(S, o), LAMBDA e : /\ EvType(S, e) = "a"
                                           /\ D(S).evs[e].id = n)
  IN IF x = <<>> THEN 0 ELSE x[1]

-----------------------------------------------------------------------------
(* State. *)

NoProps == [x \in {} |-> ""]

\* The pipeline of an audio, a video or a signal generator: where it is and how
\* long its contents are (-1: unknown), ms; its speed, hundredths; whether it is
\* ready, and what it is to do then; whether the contents have ended; the frame
\* that has arrived and the one that is shown; what is heard.
NoPipe == [ pos |-> 0, dur |-> -1, spd |-> 100, ready |-> FALSE, todo |-> <<>>,
            eos |-> FALSE, came |-> <<>>, shown |-> <<>>,
            vol |-> 100, mute |-> FALSE, pan |-> 0, bass |-> 0, treble |-> 0,
            freq |-> 440, wave |-> 0 ]

Fresh(d) ==
  LET no == Len(Docs[d].objs)
      ne == Len(Docs[d].evs)
      pr0 == FoldLeft(LAMBDA f, x : [f EXCEPT ![x.o] = (x.n :> x.v) @@ @],
                      [o \in 1 .. no |-> NoProps],
                      SelectSeq(Docs[d].props, LAMBDA x : x.v # ""))
  IN [ d    |-> d,
       g    |-> TRUE,                       \* playing
       st   |-> [e \in 1 .. ne |-> 0],      \* state of each event
       val  |-> [e \in 1 .. ne |-> ""],     \* value to be attributed
       dur  |-> [e \in 1 .. ne |-> ""],     \* duration of the attribution
       tm   |-> [o \in 1 .. no |-> -1],     \* time of each object
       dl   |-> [o \in 1 .. no |-> <<>>],   \* delayed actions
       due  |-> [o \in 1 .. no |-> <<>>],   \* delayed actions to be run now
       aw   |-> [o \in 1 .. no |-> 0],      \* awake children of a context
       sel  |-> [o \in 1 .. no |-> 0],      \* selected component of a switch
       fp   |-> [o \in 1 .. no |-> FALSE],  \* context started implicitly
       pr   |-> pr0,                        \* properties
       pl   |-> [o \in 1 .. no |-> 0],      \* player: 0 none, 1 on, 2 paused,
                                            \* 3 being made
       pp   |-> [o \in 1 .. no |-> NoProps],\* properties the player was told
       pd   |-> [o \in 1 .. no |-> -1],     \* duration the player was told
       pt   |-> [o \in 1 .. no |-> 0],      \* time of the player
       an   |-> [o \in 1 .. no |-> NoProps],\* what is being changed gradually
       scr  |-> <<800, 600>>,               \* screen, in pixels,
       bg   |-> "",                         \* and its colour
       inb  |-> [o \in 1 .. no |-> <<>>],  \* what scripts have posted
       av   |-> [o \in 1 .. no |-> NoPipe], \* pipelines of audio and video,
       sk   |-> <<>>,                       \* their seeks of this call
       foc  |-> "",                         \* current focus index
       nf   |-> [has |-> FALSE, v |-> ""],  \* focus update to be made
       log  |-> <<>>,                       \* transitions of this call
       msg  |-> <<>>,                       \* messages to scripts, this call
       n    |-> 0, ok |-> TRUE,             \* results
       ret  |-> TRUE,
       bad  |-> "",                         \* what must never happen, did
       fuel |-> Fuel ]

Stopped == [ d |-> 0, g |-> FALSE, ret |-> TRUE, log |-> <<>>, bad |-> "",
             n |-> 0, scr |-> <<800, 600>>, bg |-> "", sk |-> <<>> ]
Halt(S, b) == [Stopped EXCEPT !.ret = b, !.scr = S.scr, !.bg = S.bg]

Sleeping(S, o)  == S.st[Lambda(S, o)] = SLEEPING
Occurring(S, o) == S.st[Lambda(S, o)] = OCCURRING
Paused(S, o)    == S.st[Lambda(S, o)] = PAUSED

GetP(S, o, n) == IF n \in DOMAIN S.pr[o] THEN S.pr[o][n] ELSE ""
GetPP(S, o, n) == IF n \in DOMAIN S.pp[o] THEN S.pp[o][n] ELSE ""
Bad(S, why)  == IF S.bad = "" THEN [S EXCEPT !.bad = why] ELSE S
Ok(S, b)     == [S EXCEPT !.ok = b]

\* The object is focused.
PlayerFocused(S, o) ==
  /\ S.pl[o] # 0
  /\ GetPP(S, o, "focusIndex") # ""
  /\ GetPP(S, o, "focusIndex") = S.foc
Focused(S, o) == Type(S, o) = "media" /\ Occurring(S, o)
                 /\ PlayerFocused(S, o)

-----------------------------------------------------------------------------
(* Values, references, predicates. *)

IsRef(v) == Str[v].o # ""

\* Value of a string: that of the property it refers to, or itself.
Value(S, v) ==
  IF ~IsRef(v) THEN v
  ELSE LET o == ObjById(S, Str[v].o)
       IN IF o = 0 THEN v ELSE GetP(S, o, Str[v].p)

Compare(l, t, r) ==
  CASE t = "eq"  -> l = r
    [] t = "ne"  -> l # r
    [] t = "lt"  -> Str[l].r < Str[r].r
    [] t = "lte" -> Str[l].r <= Str[r].r
    [] t = "gt"  -> Str[l].r > Str[r].r
    [] t = "gte" -> Str[l].r >= Str[r].r

RECURSIVE Holds(_, _)
Holds(S, p) ==
  CASE p.k \in {"none", "true"} -> TRUE
    [] p.k = "false" -> FALSE
    [] p.k = "atom"  -> Compare(Value(S, p.l), p.t, Value(S, p.r))
    [] p.k = "not"   -> ~Holds(S, p.c[1])
    [] p.k = "and"   -> \A i \in DOMAIN p.c : Holds(S, p.c[i])
    [] p.k = "or"    -> \E i \in DOMAIN p.c : Holds(S, p.c[i])

-----------------------------------------------------------------------------
(* Properties and players. *)

\* What a player takes for an empty value.
Defaults == [ bottom |-> "0%", bounds |-> "0%,0%,100%,100%", left |-> "0",
              top |-> "0", width |-> "100%", height |-> "100%",
              duration |-> "indefinite", explicitDur |-> "indefinite",
              location |-> "0,0", size |-> "100%,100%", right |-> "0%",
              transparency |-> "0%", visible |-> "true", zIndex |-> "0",
              zOrder |-> "0", volume |-> "100%", soundLevel |-> "100%",
              fontColor |-> "black", fontSize |-> "12",
              fontFamily |-> "sans", freq |-> "440", wave |-> "sine",
              type |-> "application/x-ginga-timer", freeze |-> "false" ]
Default(n) == IF n \in DOMAIN Defaults THEN Defaults[n] ELSE ""

\* Sends message m to the script of o, if it is one: <<type, action, name,
\* value>>.
Tell(S, o, m) == IF GetP(S, o, "type") = SCRIPT
                 THEN [S EXCEPT !.msg = Append(@, <<o>> \o m)] ELSE S

\* A running script hears of every property that is set.
TellSet(S, o, n, v) ==
  IF S.pl[o] # 1 THEN S
  ELSE Tell(Tell(S, o, <<"attribution", "start", n, v>>),
            o, <<"attribution", "stop", n, v>>)

RECURSIVE SetList(_, _, _, _, _)

\* The other properties whose values some properties stand for.
Parts == [ bounds |-> <<"left", "top", "width", "height">>,
           location |-> <<"left", "top">>, size |-> <<"width", "height">> ]

-----------------------------------------------------------------------------
(* Audio, video and signal generators. *)

MimeOf(S, o) ==
  LET ty == GetP(S, o, "type")  u == GetP(S, o, "uri")
  IN IF ty # "" THEN ty
     ELSE IF u # "" /\ Str[u].m # "" THEN Str[u].m
     ELSE "application/x-ginga-timer"

SIGGEN == "application/x-ginga-siggen"
IsAV(S, o)  == IsMedia(S, o) /\ Str[MimeOf(S, o)].av
IsGen(S, o) == IsMedia(S, o) /\ MimeOf(S, o) = SIGGEN

Waves == <<"sine", "square", "saw", "triangle", "silence", "white-noise",
           "pink-noise", "sine-table", "ticks", "gaussian-noise",
           "red-noise", "blue-noise", "violet-noise">>

\* Value v of a level (empty: dv), in hundredths.
Level(v, dv) == IF v = "" THEN dv
                ELSE IF Str[v].x.p THEN Str[v].x.n \div 100 ELSE Str[v].x.n

\* The pipeline of o goes to a time, or changes its speed: backwards, it goes
\* from there to the beginning.
Seek(S, o, x) ==
  LET A == S.av[o]
      from(r, at) == IF r > 0 THEN <<o, at, -1, r>> ELSE <<o, 0, at, r>>
      next == CASE x.k = "+" -> A.pos + x.t
                [] x.k = "-" -> IF A.pos < x.t THEN 0 ELSE A.pos - x.t
                [] OTHER     -> x.t
  IN IF ~A.ready THEN [S EXCEPT !.av[o].todo = Append(@, x)]
     ELSE CASE x.k = "speed" ->
                 IF x.r = 0 THEN S
                 ELSE [S EXCEPT !.av[o].spd = x.r,
                                !.sk = Append(@, from(x.r, A.pos))]
            [] x.k = "none" -> S
            [] OTHER ->
                 [S EXCEPT !.av[o].pos = next,
                           !.av[o].eos = @ \/ (x.k = "+" /\ A.dur # -1
                                              /\ next >= A.dur),
                           !.sk = Append(@, from(A.spd, next))]

\* What had to wait until the pipeline was ready is done.
Ready(S, o) ==
  FoldLeft(LAMBDA T, x : Seek(T, o, x),
           [S EXCEPT !.av[o].ready = TRUE, !.av[o].todo = <<>>], S.av[o].todo)
AllReady(S) ==
  FoldLeft(LAMBDA T, o : IF T.pl[o] # 0 /\ ~T.av[o].ready THEN Ready(T, o)
                         ELSE T,
           S, [i \in 1 .. Len(S.pl) |-> i])

\* The player of o is told the value v of property n.
Pipeline(S, o, n, v) ==
  LET true == v = "true"
  IN CASE n \in {"volume", "soundLevel"} /\ (IsAV(S, o) \/ IsGen(S, o)) ->
            [S EXCEPT !.av[o].vol = Level(v, 100)]
       [] n = "freq" /\ IsGen(S, o) ->
            [S EXCEPT !.av[o].freq = Level(v, 44000) \div 100]
       [] n = "wave" /\ IsGen(S, o) ->
            [S EXCEPT !.av[o].wave =
               IF v = "" THEN 0
               ELSE (CHOOSE i \in DOMAIN Waves : Waves[i] = v) - 1]
       [] ~IsAV(S, o) -> S
       [] n = "mute" -> [S EXCEPT !.av[o].mute = true]
       [] n \in {"balance", "balanceLevel"} ->
            [S EXCEPT !.av[o].pan = Level(v, 0)]
       [] n \in {"bass", "bassLevel"} -> [S EXCEPT !.av[o].bass = Level(v, 0)]
       [] n \in {"treble", "trebleLevel"} ->
            [S EXCEPT !.av[o].treble = Level(v, 0)]
       [] n \in {"speed", "rate"} ->
            Seek(S, o, [k |-> "speed", t |-> 0, r |-> Level(v, 100)])
       [] n \in {"time", "currentTime"} ->
            Seek(S, o, [k |-> IF v = "" THEN "none" ELSE Str[v].sk.k,
                        t |-> Str[v].sk.t, r |-> 0])
       [] OTHER -> S

\* What is heard of o.
Sound(S, o) ==
  IF S.pl[o] = 0 THEN <<>>
  ELSE LET A == S.av[o]
       IN IF IsAV(S, o)
          THEN <<A.vol, IF A.mute THEN 1 ELSE 0, A.pan, A.bass,
                 A.treble, A.treble>>
          ELSE IF IsGen(S, o) THEN <<A.vol, A.freq * 100, A.wave>> ELSE <<>>
Playback(S, o) == IF IsAV(S, o) \/ IsGen(S, o) THEN S.pl[o] ELSE 0
Contents(S, o) == IF IsAV(S, o) /\ S.pl[o] # 0 THEN GetP(S, o, "uri") ELSE ""

-----------------------------------------------------------------------------
(* What is drawn: geometry and colours.  Values that change gradually are   *)
(* known up to rounding, as ranges <<least, greatest>>.                     *)

Max0(i) == IF i < 0 THEN 0 ELSE i

\* Pixels meant by value v (empty: dv), a number or a percentage of base.
Px(v, dv, base) ==
  LET x == IF v = "" THEN dv ELSE Str[v].x
      p == IF x.p THEN x.n * base ELSE 100 * x.n
  IN <<Max0((p + 4500) \div 10000), Max0((p + 5500) \div 10000)>>

NUM(n) == [n |-> 100 * n, p |-> FALSE]
PCT(n) == [n |-> 100 * n, p |-> TRUE]

\* Floor and ceiling of a / b, b > 0.
Floor(a, b) == a \div b
Ceil(a, b) == -((-a) \div b)

\* Value of a gradual change x, now.
Progress(S, o, x) ==
  LET e == S.pt[o] - x.at
  IN [i \in DOMAIN x.t |->
        IF e >= x.d THEN x.t[i]
        ELSE <<x.f[i][1] + Floor((x.t[i][1] - x.f[i][1]) * e, x.d),
               x.f[i][2] + Ceil((x.t[i][2] - x.f[i][2]) * e, x.d)>>]

Opacity(v) == LET t == Px(v, NUM(0), 255) IN <<255 - t[2], 255 - t[1]>>

Single(c) == [i \in DOMAIN c |-> <<c[i], c[i]>>]

\* What value v of property n of o is in pixels, or levels of colour.
Goal(S, o, n, v) ==
  CASE n = "width"  -> <<Px(v, PCT(100), S.scr[1])>>
    [] n = "height" -> <<Px(v, PCT(100), S.scr[2])>>
    [] n = "left"   -> <<Px(v, NUM(0), S.scr[1])>>
    [] n = "top"    -> <<Px(v, NUM(0), S.scr[2])>>
    [] n = "transparency" -> <<Opacity(v)>>
    [] n = "background" -> Single(IF v = "" THEN <<0, 0, 0>> ELSE Str[v].c)

\* What is drawn of property n, now.
Drawn(S, o, n) ==
  IF n \in DOMAIN S.an[o] THEN Progress(S, o, S.an[o][n])
  ELSE Goal(S, o, n, GetP(S, o, n))

\* Left edge and width, or top and height, on a screen of length s.  The
\* place is known if at most one of its two sides is given.
Place(S, o, n, far, len, s) ==
  LET w == Drawn(S, o, len)[1]
      r == GetP(S, o, far)
      d == Px(r, NUM(0), s)
  IN IF r = "" THEN [x |-> Drawn(S, o, n)[1], w |-> w, ok |-> TRUE]
     ELSE [x |-> <<s - w[2] - d[2], s - w[1] - d[1]>>, w |-> w,
           ok |-> GetP(S, o, n) = ""]
PlaceX(S, o) == Place(S, o, "left", "right", "width", S.scr[1])
PlaceY(S, o) == Place(S, o, "top", "bottom", "height", S.scr[2])

Now(S, o, n) ==
  CASE n = "left" -> <<PlaceX(S, o).x>> [] n = "top" -> <<PlaceY(S, o).x>>
    [] OTHER -> Drawn(S, o, n)

\* S1 is S with the new value of property n: from now on, for d, it goes
\* from what is drawn to that value.
Animate(S, S1, o, n, v, d) ==
  [S1 EXCEPT !.an[o] =
     (n :> [f |-> Now(S, o, n), t |-> Goal(S, o, n, v), at |-> S.pt[o],
            d |-> d, new |-> /\ n = "background"
                             /\ IF n \notin DOMAIN @ THEN GetP(S, o, n) = ""
                                ELSE @[n].new /\ S.pt[o] - @[n].at < @[n].d])
     @@ @]

Settle(S, o, n) ==
  LET m == IF n = "backgroundColor" THEN "background" ELSE n
  IN IF m \notin DOMAIN S.an[o] THEN S
     ELSE [S EXCEPT !.an[o] = [x \in DOMAIN @ \ {m} |-> @[x]]]

\* The presentation of o begins: so does its input transition, if it has one.
\* A fade goes from fully transparent to what it should be, and is replaced by
\* later changes of the transparency; a wipe reveals more and more of the
\* rectangle.  A diagonal wipe has two halves, each noticed when it is drawn.
Enter(S, o) ==
  LET x == Str[GetP(S, o, "transIn")].tr
      g == <<PlaceX(S, o), PlaceY(S, o)>>
      by(n, f, t) == [S EXCEPT !.an[o] =
                        (n :> [f |-> f, t |-> t, at |-> S.pt[o], d |-> x.d,
                               geo |-> g, half |-> 1]) @@ @]
      none == <<<<0, 0>>>>
  IN CASE x.k = ""      -> S
       [] x.k = "fade"  -> by("transparency", none, Drawn(S, o, "transparency"))
       [] x.k = "right" -> by("wipe:x", none, <<g[1].w>>)
       [] x.k = "down"  -> by("wipe:y", none, <<g[2].w>>)
       [] x.k = "diagonal" -> by("wipe:diagonal", none, none)
       [] x.k = "other" -> by("wipe:other", none, none)

\* What drawing does to a diagonal wipe.
Drawing(S, o) ==
  LET n == "wipe:diagonal"
  IN IF n \notin DOMAIN S.an[o] THEN S
     ELSE LET x == S.an[o][n]
              past == 2 * (S.pt[o] - x.at) > x.d
          IN IF x.geo # <<PlaceX(S, o), PlaceY(S, o)>>
             THEN [S EXCEPT !.an[o][n].geo = <<>>]
             ELSE IF x.half = 1 /\ past THEN [S EXCEPT !.an[o][n].half = 2]
             ELSE IF x.half = 2 THEN [S EXCEPT !.an[o][n].half = 3,
                                               !.an[o][n].at = S.pt[o]]
             ELSE IF x.half = 3 /\ past THEN Settle(S, o, n)
             ELSE S

-----------------------------------------------------------------------------
(* Setting properties. *)

\* What a player does when it is told the value v of property n.
TellPlayer(S, o, n, v) ==
  LET S0 == Pipeline([Settle(S, o, n) EXCEPT !.pp[o] = (n :> v) @@ @], o, n, v)
      S1 == TellSet(S0, o, n, IF v = "" THEN Default(n) ELSE v)
  IN CASE n \in {"duration", "explicitDur"} ->
            [S1 EXCEPT !.pd[o] = IF v \in {"", "indefinite"} THEN -1
                                 ELSE Str[v].t]
       [] n \in DOMAIN Parts /\ v # "" ->
            SetList(S1, o, Parts[n], Str[v].l, 0)
       [] OTHER -> S1

\* Sets property n of object o to v, during d.
SetProp(S, o, n, v, d) ==
  LET S1 == [S EXCEPT !.pr[o] = (n :> v) @@ @]
      S2 == IF Type(S, o) = "settings" /\ n = FOCUS
            THEN [S1 EXCEPT !.foc = v] ELSE S1
  IN IF S2.pl[o] = 0 \/ ~IsMedia(S, o) THEN S2
     ELSE IF d > 0 /\ n \in DOMAIN Parts THEN SetList(S2, o, Parts[n], Str[v].l, d)
     ELSE IF d > 0 /\ n \in Animated THEN Animate(S, S2, o, n, v, d)
     ELSE TellPlayer(S2, o, n, v)

SetList(S, o, ns, vs, d) ==
  IF ns = <<>> THEN S
  ELSE SetList(SetProp(S, o, Head(ns), Head(vs), d), o, Tail(ns), Tail(vs), d)

-----------------------------------------------------------------------------
(* Starting and stopping an object. *)

\* The object wakes up: its time starts, its parent counts it.
DoStart(S, o) ==
  LET p == Parent(S, o)
      S1 == IF S.tm[o] = -1 /\ IsCtx(S, p)
            THEN [S EXCEPT !.aw[p] = @ + 1] ELSE S
      S2 == [S1 EXCEPT !.tm[o] = 0]
  IN IF GetP(S, o, "focusIndex") # ""
     THEN [S2 EXCEPT !.nf = [has |-> TRUE, v |-> ""]] ELSE S2

Reset(S, o) ==
  [S EXCEPT !.st = [e \in DOMAIN @ |->
                      IF ObjOf(S, e) = o THEN SLEEPING ELSE @[e]]]

\* Ends what is left active in a sleeping object and those nested in it.
RECURSIVE ResetDeep(_, _)
ResetDeep(S, o) ==
  IF ~Sleeping(S, o) THEN S
  ELSE FoldLeft(LAMBDA T, c : ResetDeep(T, c), Reset(S, o), D(S).objs[o].kids)

\* The object falls asleep.
DoStop(S, o) ==
  LET p == Parent(S, o)
      S1 == [Reset(S, o) EXCEPT !.tm[o] = -1, !.dl[o] = <<>>,
                                !.due[o] = <<>>]
      S2 == IF IsCtx(S, p) THEN [S1 EXCEPT !.aw[p] = @ - 1] ELSE S1
  IN FoldLeft(LAMBDA T, c : ResetDeep(T, c), S2, D(S).objs[o].kids)

\* Media: its player is disposed of.
MediaStop(S, o) ==
  IF S.pl[o] = 0 THEN IF Sleeping(S, o) THEN S ELSE Bad(S, "no player")
  ELSE LET S0 == Tell(S, o, <<"presentation", "stop", "", "">>)
           S1 == [S0 EXCEPT !.pl[o] = 0, !.pp[o] = NoProps, !.pd[o] = -1,
                            !.an[o] = NoProps, !.inb[o] = <<>>,
                            !.av[o] = NoPipe]
       IN DoStop(S1, o)

\* Schedules action x on o, `delay' from now in o's time.  A sleeping object
\* has no time: its nearest awake ancestor's is used.
RECURSIVE AddDelayed(_, _, _, _)
AddDelayed(S, o, x, delay) ==
  IF o = 0 THEN S
  ELSE IF S.tm[o] = -1 THEN AddDelayed(S, Parent(S, o), x, delay)
  ELSE [S EXCEPT !.dl[o] =
          Append(@, [e |-> x.e, t |-> x.t, v |-> x.v, du |-> x.du,
                     at |-> IF delay = -1 THEN -1 ELSE S.tm[o] + delay])]

Act(e, t, v, du) == [e |-> e, t |-> t, v |-> v, du |-> du]


\* A player for media o is made: it is told all properties, then started.
NewPlayer(S, o) ==
  LET S0 == [S EXCEPT !.pr[o] = ("type" :> MimeOf(S, o)) @@ @, !.pl[o] = 3,
                         !.pt[o] = 0]
      names == SelectSeq(D(S).pnames, LAMBDA n : n \in DOMAIN S0.pr[o])
      S1 == FoldLeft(LAMBDA T, n : TellPlayer(T, o, n, T.pr[o][n]), S0, names)
  IN Enter([S1 EXCEPT !.pl[o] = 1], o)

-----------------------------------------------------------------------------
(* Transitions and reactions. *)

RECURSIVE Transition(_, _, _), Eval(_, _), Stack(_, _, _),
          DropPassed(_, _, _, _, _)

\* Transition t of the lambda of each child of o, whatever the result.
Children(S, o, t) ==
  FoldLeft(LAMBDA T, c : Transition(T, Lambda(S, c), t), S, D(S).objs[o].kids)

\* Starting a child of a sleeping context brings the context up.
BringUp(S, o) ==
  LET p == Parent(S, o)
  IN IF IsCtx(S, p) /\ Sleeping(S, p)
     THEN Transition([S EXCEPT !.fp[p] = TRUE], Lambda(S, p), START)
     ELSE S

(* Contexts. *)

BeforeCtx(S, e, t) ==
  LET o == ObjOf(S, e)
  IN CASE EvType(S, e) = "p" ->
            IF t = START THEN Ok(S, TRUE) ELSE Ok(Children(S, o, t), TRUE)
       [] EvType(S, e) = "a" -> Ok(S, t \notin {PAUSE, RESUME})
       [] OTHER -> Ok(S, FALSE)

\* The attribution itself.
Attribute(S, e) ==
  LET o == ObjOf(S, e)
      v == Value(S, S.val[e])
      du == Value(S, S.dur[e])
      d == Str[du].t
      S1 == SetProp(S, o, D(S).evs[e].id, v, d)
  IN AddDelayed(S1, o, Act(e, STOP, v, ""), d)

AfterCtx(S, e, t) ==
  LET o == ObjOf(S, e)
  IN CASE EvType(S, e) = "p" /\ t = START ->
            LET S1 == BringUp(DoStart(S, o), o)
                implicit == S1.fp[o]
                S2 == [S1 EXCEPT !.fp[o] = FALSE]
            IN IF implicit THEN S2
               ELSE FoldLeft(LAMBDA T, x :
                               IF EvType(S, x) = "p"
                               THEN AddDelayed(T, o, Act(x, START, "", ""), 0)
                               ELSE T,
                             S2, D(S).objs[o].ports)
       [] EvType(S, e) = "p" /\ t \in {STOP, ABORT} -> DoStop(S, o)
       [] EvType(S, e) = "a" /\ t = START -> Attribute(S, e)
       [] OTHER -> S

(* Switches. *)

SwitchPort(S, e) ==
  SelectSeq(D(S).objs[ObjOf(S, e)].sports, LAMBDA x : x.e = e)

\* The events of the components that transition of e may act upon.
Candidates(S, e) ==
  IF IsLambda(S, e)
  THEN LET k == D(S).objs[ObjOf(S, e)].kids
       IN [i \in DOMAIN k |-> Lambda(S, k[i])]
  ELSE IF SwitchPort(S, e) = <<>> THEN <<>>
  ELSE SortSeq(SwitchPort(S, e)[1].evs, <)

BeforeSwitch(S, e, t) ==
  LET o == ObjOf(S, e)
      cand == Candidates(S, e)
      ofObj(x) == SelectSeq(cand, LAMBDA y : ObjOf(S, y) = x)
  IN CASE EvType(S, e) # "p" -> Ok(S, FALSE)
       [] t = START /\ S.sel[o] # 0 ->
            LET c == ofObj(S.sel[o])
            IN IF c = <<>> THEN Ok(S, FALSE)
               ELSE IF S.st[c[1]] = OCCURRING THEN Ok(S, TRUE)
               ELSE Transition(S, c[1], START)
       [] t = START /\ S.sel[o] = 0 ->
            LET good == SelectSeq(D(S).objs[o].rules,
                          LAMBDA r : ofObj(r.o) # <<>> /\ Holds(S, r.p))
            IN IF good = <<>> THEN Ok(S, FALSE)
               ELSE LET c == ofObj(good[1].o)
                        S1 == Transition(S, c[Len(c)], START)
                    IN IF S1.ok THEN [S1 EXCEPT !.sel[o] = good[1].o] ELSE S1
       [] OTHER ->
            LET S1 == FoldLeft(LAMBDA T, c : IF ObjOf(T, c) = T.sel[o]
                                             THEN Transition(T, c, t) ELSE T,
                               S, cand)
            IN Ok(IF IsLambda(S, e) /\ t \in {STOP, ABORT}
                  THEN [S1 EXCEPT !.sel[o] = 0] ELSE S1, TRUE)

AfterSwitch(S, e, t) ==
  LET o == ObjOf(S, e)
      lam == Lambda(S, o)
      labels == SelectSeq(Evs(S, o), LAMBDA x : EvType(S, x) = "p" /\ x # lam)
      s == S.sel[o]
  IN CASE t = START /\ e # lam -> Transition(S, lam, START)
       [] t = START /\ e = lam -> BringUp(DoStart(S, o), o)
       [] t \in {PAUSE, RESUME} /\ e = lam ->
            FoldLeft(LAMBDA T, x : Transition(T, x, t), S, labels)
       [] t = PAUSE /\ e # lam /\ s # 0 ->
            IF Paused(S, s) THEN Transition(S, lam, t) ELSE S
       [] t = RESUME /\ e # lam /\ s # 0 ->
            IF Occurring(S, s) THEN Transition(S, lam, t) ELSE S
       [] t \in {STOP, ABORT} /\ e = lam -> DoStop(S, o)
       [] t \in {STOP, ABORT} /\ e # lam /\ s # 0 ->
            IF Sleeping(S, s)
            THEN LET S1 == Eval(S, Act(lam, t, "", ""))
                 IN [S1 EXCEPT !.n = S.n]
            ELSE S
       [] OTHER -> S

(* Media. *)

\* Starting at an area: what precedes its begin is over, what follows its end
\* is off; the rest is brought forward.
DropPassed(S, o, begin, end, i) ==
  IF i > Len(S.dl[o]) THEN S
  ELSE LET x == S.dl[o][i]
           gone == x.at = -1 \/ x.at < begin \/ (end # -1 /\ x.at > end)
           S1 == IF gone /\ x.t = START /\ x.at # -1 /\ x.at < begin
                 THEN Transition(S, x.e, START) ELSE S
       IN IF gone
          THEN DropPassed([S1 EXCEPT !.dl[o] = RemoveAt(@, i)],
                          o, begin, end, i)
          ELSE DropPassed([S1 EXCEPT !.dl[o][i].at = @ - begin],
                          o, begin, end, i + 1)

\* A time in seconds, as text.
Secs(t) ==
  LET f == t % 1000
      pad == IF f < 10 THEN "00" ELSE IF f < 100 THEN "0" ELSE ""
  IN ToString(t \div 1000) \o
     (IF f = 0 THEN ""
      ELSE IF f % 100 = 0 THEN "." \o ToString(f \div 100)
      ELSE IF f % 10 = 0 THEN "." \o (IF f < 100 THEN "0" ELSE "") \o
                              ToString(f \div 10)
      ELSE "." \o pad \o ToString(f))

Resumed(S, o) == Tell([Ready(S, o) EXCEPT !.pl[o] = 1], o,
                      <<"presentation", "resume", "", "">>)

BeforeMedia(S, e, t) ==
  LET o == ObjOf(S, e)
      lam == Lambda(S, o)
      areas == SelectSeq(Evs(S, o), LAMBDA x : EvType(S, x) = "p" /\ x # lam)
  IN CASE EvType(S, e) # "p" -> Ok(S, t \notin {PAUSE, RESUME})
       [] t = START ->
            LET S1 == BringUp(S, o)
            IN IF e = lam
               THEN IF S1.st[e] = SLEEPING
                    THEN IF S1.pl[o] # 0 THEN Ok(Bad(S1, "two players"), TRUE)
                         ELSE Ok(Tell(NewPlayer(S1, o), o,
                                  <<"presentation", "start", "", "">>), TRUE)
                    ELSE IF S1.pl[o] # 2
                         THEN Ok(Bad(S1, "player not paused"), TRUE)
                         ELSE Ok(Resumed(S1, o), TRUE)
               ELSE IF S1.st[e] = SLEEPING /\ S1.st[lam] = SLEEPING
               THEN LET S2 == Transition(S1, lam, START)
                        b == D(S).evs[e].b
                        n == D(S).evs[e].n
                        begin == IF b = -1 THEN 0 ELSE b
                        S2a == IF ~IsAV(S, o) THEN S2
                               ELSE Seek(S2, o, [k |-> "", t |-> begin, r |-> 0])
                        S2b == TellSet(S2a, o, "time", Secs(begin))
                        S3 == IF n = -1 THEN S2b
                              ELSE AddDelayed(
                                     TellSet([S2b EXCEPT !.pd[o] =
                                               n - begin],
                                             o, "duration", Secs(n - begin)),
                                     o, Act(e, STOP, "", ""), n)
                    IN Ok(DropPassed(S3, o, begin, n, 1), TRUE)
               ELSE Ok(S1, TRUE)
       [] t \in {PAUSE, RESUME} /\ e = lam ->
            LET S1 == FoldLeft(LAMBDA T, x : Eval(T, Act(x, t, "", "")),
                               S, areas)
                S2 == [S1 EXCEPT !.n = S.n]
            IN IF S2.st[lam] # (IF t = PAUSE THEN OCCURRING ELSE PAUSED)
               THEN Ok(S2, FALSE)
               ELSE IF S2.pl[o] # (IF t = PAUSE THEN 1 ELSE 2)
               THEN Ok(Bad(S2, "player out of step"), TRUE)
               ELSE Ok(IF t = RESUME THEN Resumed(S2, o)
                       ELSE Tell([S2 EXCEPT !.pl[o] = 2], o,
                                 <<"presentation", "pause", "", "">>), TRUE)
       [] OTHER -> Ok(S, TRUE)

AfterMedia(S, e, t) ==
  LET o == ObjOf(S, e)
      lam == Lambda(S, o)
      evt == D(S).evs[e]
      areas == SelectSeq(Evs(S, o), LAMBDA x : /\ EvType(S, x) = "p"
                                               /\ x # lam
                                               /\ D(S).evs[x].label = "")
  IN CASE evt.ty = "p" /\ t = START /\ e = lam ->
            FoldLeft(LAMBDA T, x :
                       AddDelayed(AddDelayed(T, o, Act(x, START, "", ""),
                                             D(S).evs[x].b),
                                  o, Act(x, STOP, "", ""), D(S).evs[x].n),
                     DoStart(S, o), areas)
       [] evt.ty = "p" /\ t = START /\ evt.label # "" ->
            Tell(S, o, <<"presentation", "start", evt.label, "">>)
       [] evt.ty = "p" /\ t \in {STOP, ABORT} /\ e = lam ->
            MediaStop(S, o)
       [] evt.ty = "p" /\ t \in {STOP, ABORT} /\ evt.label # "" ->
            Tell(S, o, <<"presentation", "stop", evt.label, "">>)
       [] evt.ty = "a" /\ t = START -> Attribute(S, e)
       [] OTHER -> S

(* Any event. *)

Allowed(cur, t) ==
  CASE t = START  -> cur # OCCURRING
    [] t = PAUSE  -> cur = OCCURRING
    [] t = RESUME -> cur = PAUSED
    [] t \in {STOP, ABORT} -> cur # SLEEPING

Target(t) == CASE t \in {START, RESUME} -> OCCURRING
               [] t = PAUSE -> PAUSED
               [] t \in {STOP, ABORT} -> SLEEPING

Transition(S, e, t) ==
  IF S.fuel <= 0 THEN Ok(S, FALSE)
  ELSE
  LET cur == S.st[e]
      o == ObjOf(S, e)
      S0 == [S EXCEPT !.fuel = @ - 1]
  IN IF ~Allowed(cur, t) THEN Ok(S0, FALSE)
     ELSE
     LET S1 == CASE IsCtx(S, o) -> BeforeCtx(S0, e, t)
                 [] IsSwitch(S, o) -> BeforeSwitch(S0, e, t)
                 [] OTHER -> BeforeMedia(S0, e, t)
     IN IF ~S1.ok THEN S1
        ELSE IF S1.st[e] # cur THEN Ok(S1, FALSE)
        ELSE
        LET S2 == [S1 EXCEPT !.st[e] = Target(t)]
            S3 == CASE IsCtx(S, o) -> AfterCtx(S2, e, t)
                    [] IsSwitch(S, o) -> AfterSwitch(S2, e, t)
                    [] OTHER -> AfterMedia(S2, e, t)
        IN [S3 EXCEPT !.ok = TRUE, !.log = Append(@, <<e, t>>)]

\* The links of context c that action a fires: their actions that have a
\* delay are scheduled, the others are returned in `push', the one to be run
\* first at the end.
Fire(S, a, c) ==
  LET one(acc, ln) ==
        IF \E i \in DOMAIN ln.conds :
              /\ ln.conds[i].e = a.e /\ ln.conds[i].t = a.t
              /\ Holds(acc.s, ln.conds[i].p)
        THEN LET delay(x) == Str[Value(acc.s, x.dl)].t
                 now == SelectSeq(ln.acts, LAMBDA x : delay(x) \in {0, -1})
                 later == SelectSeq(ln.acts,
                                    LAMBDA x : delay(x) \notin {0, -1})
             IN [s |-> IF Sleeping(acc.s, c) THEN acc.s
                       ELSE FoldLeft(LAMBDA T, x :
                                       AddDelayed(T, c, Act(x.e, x.t, x.v, x.du),
                                                  delay(x)),
                                     acc.s, later),
                 push |-> acc.push \o Reverse(now)]
        ELSE acc
  IN IF ~D(S).objs[c].on THEN [s |-> S, push |-> <<>>]
     ELSE FoldLeft(one, [s |-> S, push |-> <<>>], D(S).objs[c].links)

\* A reaction: the actions of the stack, last first, each with what it causes.
\* n counts the transitions that took place.
Stack(S, stk, n) ==
  IF stk = <<>> \/ S.fuel <= 0 THEN [S EXCEPT !.n = n]
  ELSE
  LET a == stk[Len(stk)]
      rest == SubSeq(stk, 1, Len(stk) - 1)
      S1 == IF EvType(S, a.e) = "a"
            THEN [S EXCEPT !.dur[a.e] = a.du, !.val[a.e] = a.v] ELSE S
      S2 == Transition(S1, a.e, a.t)
      o == ObjOf(S, a.e)
      p == Parent(S, o)
      gp == IF p = 0 THEN 0 ELSE Parent(S, p)
      inCtx == IsCtx(S, p) /\ Occurring(S2, p)
      inGp == /\ inCtx /\ IsCtx(S, gp) /\ Occurring(S2, gp)
              /\ \E i \in DOMAIN D(S).objs[p].ports :
                    ObjOf(S, D(S).objs[p].ports[i]) = o
      add(acc, c) == LET f == Fire(acc.s, a, c)
                     IN [s |-> f.s, push |-> acc.push \o f.push]
      r0 == [s |-> S2, push |-> <<>>]
      r1 == IF inCtx THEN add(r0, p) ELSE r0
      r2 == IF inGp THEN add(r1, gp) ELSE r1
      \* Interfaces of a switch follow what they map to.
      mirror(T, x) ==
        FoldLeft(LAMBDA U, m :
                   IF /\ U.sel[p] = o /\ ObjOf(U, m) = o
                      /\ \/ m = a.e
                         \/ IsLambda(S, a.e) /\ a.t \in {STOP, ABORT}
                      /\ gp # 0
                   THEN Eval(U, [a EXCEPT !.e = x.e]) ELSE U,
                 T, x.evs)
      r3 == IF IsSwitch(S, p)
            THEN [r2 EXCEPT !.s = FoldLeft(mirror, @, D(S).objs[p].sports)]
            ELSE r2
      ali == D(S).objs[o].aliases
      \* contexts that refer to the object, other than those already seen
      more == FoldLeft(LAMBDA q, x :
                         IF /\ IsCtx(S, x.c) /\ Occurring(r3.s, x.c)
                            /\ ~(inCtx /\ x.c = p) /\ ~(inGp /\ x.c = gp)
                            /\ ~Contains(q, x.c)
                         THEN Append(q, x.c) ELSE q,
                       <<>>, ali)
      r4 == IF IsCtx(S, o) THEN add(r3, o) ELSE FoldLeft(add, r3, more)
  IN IF ~S2.ok THEN Stack(S2, rest, n)
     ELSE Stack(r4.s, rest \o [i \in DOMAIN r4.push |->
                                 Act(r4.push[i].e, r4.push[i].t,
                                     r4.push[i].v, r4.push[i].du)], n + 1)

Eval(S, a) == Stack(S, <<a>>, 0)

-----------------------------------------------------------------------------
(* Ticks. *)

RECURSIVE RunDue(_, _)
RunDue(S, o) ==
  IF S.due[o] = <<>> \/ S.fuel <= 0 THEN S
  ELSE LET a == Head(S.due[o])
           S1 == Eval([S EXCEPT !.due[o] = Tail(@)],
                      Act(a.e, a.t, a.v, a.du))
       IN IF ~Occurring(S1, o) THEN S1 ELSE RunDue(S1, o)

ObjTick(S, o, ms) ==
  IF ~Occurring(S, o) THEN S
  ELSE LET now == S.tm[o] + ms
           isdue(x) == x.at # -1 /\ x.at <= now
           S1 == [S EXCEPT !.tm[o] = now,
                           !.due[o] = @ \o SelectSeq(S.dl[o], isdue),
                           !.dl[o] = SelectSeq(@, LAMBDA x : x.at > now)]
       IN RunDue(S1, o)

\* The focus goes to the given index, or to the smallest one in use.
UpdateFocus(S, index) ==
  LET used == {GetP(S, o, "focusIndex") : o \in
                {x \in ObjNums(S) : IsMedia(S, x) /\ Occurring(S, x)}} \ {""}
      next == IF index # "" THEN index
              ELSE IF used = {} THEN ""
              ELSE CHOOSE i \in used : \A j \in used : Str[i].r <= Str[j].r
  IN Eval(S, Act(AttrEv(S, D(S).settings, FOCUS), START, next, ""))

MediaTick(S, o, ms) ==
  LET S0 == IF S.pl[o] # 0 /\ Occurring(S, o)
            THEN [S EXCEPT !.pt[o] = @ + ms] ELSE S
      S1 == ObjTick(S0, o, ms)
  IN IF /\ S1.pl[o] # 0
        /\ \/ S1.av[o].eos
           \/ S1.pd[o] # -1 /\ S1.tm[o] > S1.pd[o]
     THEN Eval(S1, Act(Lambda(S, o), STOP, "", "")) ELSE S1

Tick(S, o, ms) ==
  CASE Type(S, o) = "ctx" ->
         LET S1 == ObjTick(S, o, ms)
             alone == \/ S1.aw[o] = 0
                      \/ /\ Parent(S, o) = 0 /\ S1.aw[o] = 1
                         /\ ~Sleeping(S1, D(S).settings)
         IN IF alone THEN Eval(S1, Act(Lambda(S, o), STOP, "", "")) ELSE S1
    [] Type(S, o) = "switch" ->
         LET S1 == ObjTick(S, o, ms)
         IN IF Occurring(S1, o) /\ S1.sel[o] # 0 /\ Sleeping(S1, S1.sel[o])
            THEN Eval(S1, Act(Lambda(S, o), STOP, "", "")) ELSE S1
    [] Type(S, o) = "settings" ->
         MediaTick(IF S.nf.has
                   THEN UpdateFocus([S EXCEPT !.nf.has = FALSE], S.nf.v)
                   ELSE S, o, ms)
    [] Type(S, o) = "media" -> MediaTick(S, o, ms)

-----------------------------------------------------------------------------
(* Keys. *)

Moves == ("CURSOR_UP" :> "moveUp") @@ ("CURSOR_DOWN" :> "moveDown") @@
         ("CURSOR_LEFT" :> "moveLeft") @@ ("CURSOR_RIGHT" :> "moveRight")

Key(S, o, key, press) ==
  IF ~IsMedia(S, o) \/ Sleeping(S, o) \/ S.pl[o] = 0 THEN S
  ELSE
  LET foc == PlayerFocused(S, o)
      next == IF press /\ key \in DOMAIN Moves /\ foc
              THEN GetPP(S, o, Moves[key]) ELSE ""
      S1 == IF next = "" THEN S
            ELSE [S EXCEPT !.nf = [has |-> TRUE, v |-> next]]
      S2 == IF foc THEN Tell(S1, o, <<"key", IF press THEN "press"
                                             ELSE "release", key, "">>) ELSE S1
      waits(e) == LET k == D(S).evs[e].key
                  IN IF k = "" \/ Str[k].dollar
                     THEN key = "ENTER" /\ foc ELSE key = k
      sel == SelectSeq(Evs(S, o), LAMBDA e : EvType(S, e) = "s" /\ waits(e))
  IN FoldLeft(LAMBDA T, e : Eval(T, Act(e, IF press THEN START ELSE STOP,
                                        "", "")), S2, sel)

-----------------------------------------------------------------------------
(* Public calls. *)

Clear(S) == [S EXCEPT !.log = <<>>, !.msg = <<>>, !.sk = <<>>, !.n = 0,
                      !.ok = TRUE, !.fuel = Fuel]

Refuse(S) == IF S.g THEN [Clear(S) EXCEPT !.ret = FALSE]
             ELSE [S EXCEPT !.ret = FALSE]

\* The presentation has ended when the body is asleep: found out by the next
\* tick or key.
Over(S) == ~S.g \/ Sleeping(S, D(S).root)

DoStartDoc(d, scr, bg) ==
  LET S0 == [Fresh(d) EXCEPT !.scr = scr, !.bg = bg]
      S1 == Eval(S0, Act(Lambda(S0, D(S0).root), START, "", ""))
      S2 == Transition(S1, Lambda(S1, D(S1).settings), START)
  IN [S2 EXCEPT !.ret = TRUE]

\* a: [op, d, ms, key, press, e, t, v]
Call(S, a) ==
  CASE a.op = "start" ->
         IF S.g \/ a.d = 0 THEN Refuse(S)
         ELSE DoStartDoc(a.d, S.scr, S.bg)
    [] a.op = "stop" -> Halt(S, S.g)
    [] a.op = "tick" ->
         IF Over(S) THEN Halt(S, FALSE)
         ELSE LET S1 == Clear(S)
                  os == SelectSeq(D(S1).order,
                                  LAMBDA o : Occurring(S1, o))
                  S2 == FoldLeft(LAMBDA T, o : Tick(T, o, a.ms), S1, os)
              IN [S2 EXCEPT !.ret = TRUE]
    [] a.op = "key" ->
         IF Over(S) THEN Halt(S, FALSE)
         ELSE LET S1 == Clear(S)
                  os == SelectSeq(D(S1).order,
                                  LAMBDA o : ~Sleeping(S1, o))
                  S2 == FoldLeft(LAMBDA T, o : Key(T, o, a.key, a.press),
                                 S1, os)
              IN [S2 EXCEPT !.ret = TRUE]
    [] a.op = "act" ->
         IF ~S.g \/ a.e = 0 THEN Refuse(S)
         ELSE LET S1 == Eval(Clear(S), Act(a.e, a.t, a.v, ""))
              IN [S1 EXCEPT !.ret = S1.n > 0]
    [] a.op = "trans" ->
         IF ~S.g \/ a.e = 0 THEN Refuse(S)
         ELSE LET S1 == Transition(Clear(S), a.e, a.t)
              IN [S1 EXCEPT !.ret = S1.ok, !.n = IF S1.ok THEN 1 ELSE 0]
    \* A script posts an action on an event of its own object ...
    [] a.op = "post" ->
         IF ~S.g \/ a.o = 0 THEN Refuse(S)
         ELSE LET runs == S.pl[a.o] # 0 /\ GetP(S, a.o, "type") = SCRIPT
                  S1 == [Clear(S) EXCEPT !.ret = runs]
              IN IF ~runs THEN S1
                 ELSE [S1 EXCEPT !.inb[a.o] =
                         Append(@, Act(a.e, a.t, a.v, ""))]
    \* ... that is collected when the object is drawn and run at a tick.
    [] a.op = "redraw" ->
         IF ~S.g THEN Refuse(S)
         ELSE LET collect(T, o) ==
                    FoldLeft(LAMBDA U, x : IF x.e = 0 THEN U
                                           ELSE AddDelayed(U, o, x, 0),
                             [Drawing(T, o) EXCEPT
                                !.inb[o] = <<>>, !.av[o].came = <<>>,
                                !.av[o].shown = IF T.av[o].came = <<>>
                                                THEN @ ELSE T.av[o].came],
                             T.inb[o])
              IN [FoldLeft(collect, Clear(S), [i \in ObjNums(S) |-> i])
                    EXCEPT !.ret = TRUE]
    \* The screen changes: gradual changes of the geometry are over.
    [] a.op = "resize" ->
         LET S1 == [S EXCEPT !.scr = <<a.w, a.h>>, !.ret = TRUE]
             geo == <<"left", "top", "width", "height">>
         IN IF ~S.g THEN S1
            ELSE FoldLeft(LAMBDA T, o :
                            FoldLeft(LAMBDA U, n : Settle(U, o, n), T, geo),
                          Clear(S1), [i \in ObjNums(S) |-> i])
    \* The background of the screen changes.
    [] a.op = "background" ->
         [(IF S.g THEN Clear(S) ELSE S) EXCEPT !.bg = a.v, !.ret = TRUE]
    \* What happens to the contents of an audio, a video or a generator:
    \* they end, a frame arrives, time passes.
    [] a.op \in {"eos", "frame", "at"} ->
         IF ~S.g \/ a.o = 0 THEN Refuse(S)
         ELSE LET on == /\ IsAV(S, a.o) \/ IsGen(S, a.o)
                        /\ S.pl[a.o] = 1 \/ (S.pl[a.o] = 2 /\ a.op = "at")
                  S1 == [Clear(S) EXCEPT !.ret = on]
                  frozen == GetPP(S, a.o, "freeze") = "true"
              IN IF ~on THEN S1
                 ELSE CASE a.op = "at" ->
                             [S1 EXCEPT !.av[a.o].pos = a.w,
                                        !.av[a.o].dur = a.h]
                        [] a.op = "frame" -> [S1 EXCEPT !.av[a.o].came = a.q]
                        [] a.op = "eos" ->
                             IF IsGen(S, a.o) \/ frozen THEN S1
                             ELSE [S1 EXCEPT !.av[a.o].eos = TRUE]
    [] OTHER -> [Clear(S) EXCEPT !.ret = TRUE]

\* Pipelines are ready when the call returns.
Do(S, a) == LET T == Call(S, a) IN IF T.g THEN AllReady(T) ELSE T

=============================================================================
