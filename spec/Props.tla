------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties of properties.jsonl as predicates over states and steps  *)
(* of Ginga.tla, each stated without reference to how Ginga.tla computes   *)
(* its steps.  S is the state before the call a, T the one after it.       *)
(***************************************************************************)
EXTENDS Draw

\* Objects nested in o, not counting those inside switches, which have a life
\* of their own when they are started directly.
RECURSIVE Nested(_, _)
Nested(T, o) ==
  LET k == {D(T).objs[o].kids[i] : i \in DOMAIN D(T).objs[o].kids}
  IN IF ~IsCtx(T, o) THEN {} ELSE k \cup UNION {Nested(T, x) : x \in k}

EvNums(T) == DOMAIN D(T).evs
HasLinks(T) == \E o \in ObjNums(T) : D(T).objs[o].links # <<>>
LambdaOf(T, e) == Lambda(T, ObjOf(T, e))
Logged(T, e) == \E i \in DOMAIN T.log : T.log[i][1] = e
LoggedT(T, e, t) == \E i \in DOMAIN T.log : T.log[i] = <<e, t>>
IsArea(T, e) == EvType(T, e) = "p" /\ ~IsLambda(T, e)
Kids(T, o) == {D(T).objs[o].kids[i] : i \in DOMAIN D(T).objs[o].kids}
Direct(a) == a.op = "trans" /\ a.e # 0
DirectOn(a, e, t) == Direct(a) /\ a.e = e /\ a.t = t

C01(S, a, T) ==
  (Direct(a) /\ S.g) =>
    /\ T.ret => Allowed(S.st[a.e], a.t)
    /\ ~Allowed(S.st[a.e], a.t) => T.st = S.st /\ T.log = <<>>
    /\ (T.ret /\ ~HasLinks(T)) => T.st[a.e] = Target(a.t)
    /\ (~T.ret /\ ~HasLinks(T)) => T.st[a.e] = S.st[a.e]

C04(S, a, T) ==
  T.g =>
    /\ \A o \in ObjNums(T) : T.tm[o] = -1 => T.dl[o] = <<>> /\ T.due[o] = <<>>
    /\ (a.op = "tick" /\ S.g) =>
         \A o \in ObjNums(T) :
           (Occurring(S, o) /\ T.tm[o] = S.tm[o] + a.ms /\ ~Logged(T, Lambda(T, o))) =>
             \A i \in DOMAIN S.dl[o] :
               (S.dl[o][i].at # -1 /\ S.dl[o][i].at <= T.tm[o]) =>
                  ~Contains(T.dl[o], S.dl[o][i])

C05(S, a, T) ==
  T.g =>
    /\ \A c \in ObjNums(T) : (IsCtx(T, c) /\ Sleeping(T, c)) =>
         \A e \in EvNums(T) :
           (ObjOf(T, e) \in Nested(T, c) /\ EvType(T, e) # "a") => T.st[e] = SLEEPING
    /\ \A c \in ObjNums(T) :
         (/\ IsCtx(T, c) /\ T.ret
          /\ DirectOn(a, Lambda(T, c), STOP) \/ DirectOn(a, Lambda(T, c), ABORT)) =>
            \A e \in EvNums(T) : ObjOf(T, e) \in Nested(T, c) => T.st[e] = SLEEPING
    /\ \A c \in ObjNums(T) :
         IsCtx(T, c) =>
         /\ (DirectOn(a, Lambda(T, c), PAUSE) /\ T.ret /\ ~HasLinks(T)) =>
              \A o \in Nested(T, c) : ~Occurring(T, o)
         /\ (DirectOn(a, Lambda(T, c), RESUME) /\ T.ret /\ ~HasLinks(T)) =>
              \A o \in Kids(T, c) : ~Paused(T, o)

C06(S, a, T) ==
  T.g =>
    /\ \A c \in ObjNums(T) : IsCtx(T, c) =>
         T.aw[c] = Cardinality({o \in Kids(T, c) : ~Sleeping(T, o)})
    /\ (a.op = "tick" /\ S.g) =>
         \A c \in ObjNums(T) :
           \* a context with nothing to do ends ...
           /\ (/\ IsCtx(T, c) /\ Occurring(S, c) /\ S.aw[c] = 0
               /\ \A i \in DOMAIN T.log : ObjOf(T, T.log[i][1]) \notin Kids(T, c))
              => LoggedT(T, Lambda(T, c), STOP) \/ ~Occurring(T, c)
                 \/ \E i \in DOMAIN T.log : T.log[i][1] = Lambda(T, c)
           \* ... and one with an active child does not, by itself.
           /\ (/\ IsCtx(T, c) /\ ~HasLinks(T) /\ c # D(T).root
               /\ Occurring(S, c) /\ Occurring(S, D(S).root) /\ ~Occurring(T, c)
               /\ \A p \in ObjNums(T) : (IsCtx(T, p) /\ c \in Nested(T, p)) => Occurring(T, p)
               /\ ~IsSwitch(T, Parent(T, c)))
              => \A o \in Kids(T, c) : Sleeping(T, o)

\* The delayed starts of the ports of context c.
PortStarts(T, c) ==
  LET p == SelectSeq(D(T).objs[c].ports, LAMBDA e : EvType(T, e) = "p")
  IN [i \in DOMAIN p |-> [e |-> p[i], t |-> START, v |-> "", du |-> "", at |-> 0]]

C07(S, a, T) ==
  T.g =>
    /\ \A o \in ObjNums(T) : ~T.fp[o]
    /\ \A c \in ObjNums(T) :
         /\ (IsCtx(T, c) /\ S.g /\ Direct(a) /\ a.e = Lambda(T, c) /\ a.t = START
               /\ T.ret /\ Sleeping(S, c)) =>
               /\ T.dl[c] = PortStarts(T, c)
               /\ \A o \in Kids(T, c) : Sleeping(T, o)
         /\ (IsCtx(T, c) /\ S.g /\ Direct(a) /\ a.t = START /\ T.ret /\ Sleeping(S, c)
               /\ ObjOf(T, a.e) \in Nested(T, c)) =>
               /\ Occurring(T, c)
               /\ \A i \in DOMAIN T.dl[c] : T.dl[c][i].t # START

C08(S, a, T) ==
  (T.g /\ S.g) =>
    \A o \in ObjNums(T) :
      (IsSwitch(T, o) /\ DirectOn(a, Lambda(T, o), START) /\ Sleeping(S, o)) =>
        LET good == SelectSeq(D(S).objs[o].rules, LAMBDA r : Holds(S, r.p))
        IN IF good = <<>> THEN ~T.ret /\ T.st = S.st
           ELSE /\ T.ret = (S.st[Lambda(S, good[1].o)] # OCCURRING)
                /\ T.ret => /\ T.sel[o] = good[1].o
                            /\ \A x \in Kids(T, o) \ {good[1].o} :
                                  T.st[Lambda(T, x)] = S.st[Lambda(S, x)]

C09(S, a, T) ==
  T.g =>
    \A o \in ObjNums(T) : IsSwitch(T, o) =>
      /\ Sleeping(T, o) <=> T.sel[o] = 0
      /\ (S.g /\ Direct(a) /\ a.e = Lambda(T, o) /\ T.ret /\ a.t # START) =>
           LET s == S.sel[o] IN
           /\ a.t = PAUSE => ~Occurring(T, s) /\ T.sel[o] = s
           /\ a.t = RESUME => ~Paused(T, s) /\ T.sel[o] = s
           /\ a.t \in {STOP, ABORT} => Sleeping(T, s)
           /\ ~HasLinks(T) => \A x \in Kids(T, o) \ {s} :
                T.st[Lambda(T, x)] = S.st[Lambda(S, x)]
      \* never another component
      /\ (S.g /\ S.sel[o] # 0 /\ T.sel[o] # 0 /\ ~Logged(T, Lambda(T, o)))
           => T.sel[o] = S.sel[o]

C10(S, a, T) ==
  T.g =>
    \A o \in ObjNums(T) : IsMedia(T, o) =>
      \A i \in DOMAIN Evs(T, o) :
        LET e == Evs(T, o)[i] IN IsArea(T, e) =>
          /\ Sleeping(T, o) => T.st[e] = SLEEPING
          \* at a tick areas begin and end because it is time to
          /\ (/\ S.g /\ a.op = "tick" /\ ~HasLinks(T) /\ T.st[e] # S.st[e]
              /\ Occurring(T, o) /\ Occurring(S, o)
              /\ \A x \in ObjNums(S) \ {o} : \A k \in DOMAIN S.dl[x] : S.dl[x][k].e # e) =>
                IF T.st[e] = OCCURRING
                THEN \E k \in DOMAIN S.dl[o] : S.dl[o][k].e = e /\ S.dl[o][k].t = START
                                              /\ S.dl[o][k].at <= T.tm[o]
                ELSE \E k \in DOMAIN S.dl[o] : S.dl[o][k].e = e /\ S.dl[o][k].t = STOP
                                              /\ S.dl[o][k].at <= T.tm[o]
          \* a paused media pauses its areas, a resumed one resumes them
          /\ (S.g /\ T.ret /\ ~HasLinks(T) /\ DirectOn(a, Lambda(T, o), PAUSE)) =>
                T.st[e] # OCCURRING
          /\ (S.g /\ T.ret /\ ~HasLinks(T) /\ DirectOn(a, Lambda(T, o), RESUME)) =>
                T.st[e] # PAUSED

C11(S, a, T) ==
  T.g =>
    \A o \in ObjNums(T) :
      /\ T.tm[o] = -1 <=> Sleeping(T, o)
      /\ S.g =>
         LET same == ~Logged(T, Lambda(T, o)) /\ S.st[Lambda(S, o)] = T.st[Lambda(T, o)] IN
         /\ (a.op # "tick" /\ same) => T.tm[o] = S.tm[o]
         /\ (a.op = "tick" /\ same) =>
              T.tm[o] = S.tm[o] + (IF Occurring(S, o) THEN a.ms ELSE 0)
         /\ (a.op = "tick" /\ ~Occurring(S, o) /\ Occurring(T, o) /\ Sleeping(S, o)) =>
              T.tm[o] = 0
         /\ (a.op = "tick" /\ same /\ Occurring(T, o) /\ IsMedia(T, o) /\ S.pd[o] = T.pd[o]
               /\ T.pd[o] # -1) => T.tm[o] <= T.pd[o]

\* Whether the end of attribution e is scheduled somewhere.
EndsBySelf(T, e) ==
  \E o \in ObjNums(T) : \E i \in DOMAIN T.dl[o] \cup DOMAIN T.due[o] :
    \/ i \in DOMAIN T.dl[o] /\ T.dl[o][i].e = e /\ T.dl[o][i].t = STOP
    \/ i \in DOMAIN T.due[o] /\ T.due[o][i].e = e /\ T.due[o][i].t = STOP

C12(S, a, T) ==
  T.g =>
    /\ \A e \in EvNums(T) :
         (/\ EvType(T, e) = "a" /\ T.st[e] = OCCURRING /\ ~Sleeping(T, D(T).root)
          /\ S.g /\ ~Sleeping(S, D(S).root)
          /\ S.st[e] # OCCURRING \/ EndsBySelf(S, e)) =>
            EndsBySelf(T, e)
    /\ (S.g /\ a.op = "act" /\ a.e # 0 /\ a.t = START) =>
         (EvType(T, a.e) = "a" =>
           /\ T.ret = (S.st[a.e] = SLEEPING)
           /\ (T.ret /\ ~HasLinks(T)) =>
                GetP(T, ObjOf(T, a.e), D(T).evs[a.e].id) = Value(S, a.v))

C14(S, a, T) ==
  (S.g /\ T.g /\ a.op = "key") =>
    \A e \in EvNums(T) :
      LET o == ObjOf(T, e)
          k == D(T).evs[e].key
          mine == /\ EvType(T, e) = "s" /\ IsMedia(T, o) /\ ~Sleeping(S, o)
                  /\ IF k = "" \/ Str[k].dollar THEN a.key = "ENTER" /\ PlayerFocused(S, o)
                     ELSE a.key = k
      IN ~HasLinks(T) => T.st[e] = IF mine THEN (IF a.press THEN OCCURRING ELSE SLEEPING)
                                   ELSE S.st[e]

C15(S, a, T) ==
  T.g =>
    /\ T.foc = GetP(T, D(T).settings, FOCUS)
    /\ \A o \in ObjNums(T) :
         (Type(T, o) = "media" /\ Occurring(T, o)) =>
            (PlayerFocused(T, o) <=> GetPP(T, o, "focusIndex") # ""
                                     /\ GetPP(T, o, "focusIndex") = GetP(T, D(T).settings, FOCUS))
    \* a pending update is made at the settings' next tick
    /\ (S.g /\ a.op = "tick" /\ S.nf.has /\ Occurring(S, D(S).settings) /\ ~HasLinks(T)
          /\ S.st[AttrEv(S, D(S).settings, FOCUS)] = SLEEPING /\ Occurring(T, D(T).settings)) =>
         LoggedT(T, AttrEv(T, D(T).settings, FOCUS), START)

C16(S, a, T) ==
  /\ a.op = "start" => (T.ret <=> (~S.g /\ a.d # 0)) /\ (T.ret => T.g) /\ (~T.ret => T.g = S.g)
  /\ a.op = "stop" => T.ret = S.g /\ ~T.g
  /\ a.op \in {"tick", "key"} =>
       /\ T.ret = (S.g /\ S.st[Lambda(S, D(S).root)] # SLEEPING)
       /\ T.g = T.ret
  /\ a.op \notin {"start", "stop", "tick", "key"} => T.g = S.g

C17(S, a, T) == T.bad = "" /\ (T.g => T.fuel > 0)

C27(S, a, T) ==
  (S.g /\ T.g) =>
    /\ \A i \in DOMAIN T.msg : GetP(T, T.msg[i][1], "type") = SCRIPT
    /\ \A o \in ObjNums(T) : (IsMedia(T, o) /\ GetP(T, o, "type") = SCRIPT
                                /\ GetP(S, o, "type") = SCRIPT) =>
         LET m == SelectSeq(T.msg, LAMBDA x : x[1] = o)
             l == SelectSeq(T.log, LAMBDA x : x[1] = Lambda(T, o))
             cnt(w) == Len(SelectSeq(m, LAMBDA x : x[2] = "presentation" /\ x[3] = w /\ x[4] = ""))
             trs(ts) == Len(SelectSeq(l, LAMBDA x : x[2] \in ts))
         IN /\ cnt("stop") = trs({STOP, ABORT})
            /\ cnt("start") + cnt("resume") = trs({START, RESUME})
            /\ cnt("pause") = trs({PAUSE})
            /\ (a.op = "key" /\ ~Sleeping(S, o)) =>
                 (Len(SelectSeq(m, LAMBDA x : x[2] = "key")) = IF PlayerFocused(S, o) THEN 1 ELSE 0)

-----------------------------------------------------------------------------
(* Links. *)

Const(v) == ~IsRef(v)
Undelayed(x) == Const(x.dl) /\ Str[x.dl].t \in {0, -1}
Free(p) == p.k \in {"none", "true"}
\* Links of the parent of the object of e, awake throughout, that wait for
\* transition t of e.
Waiting(S, e, t, T) ==
  LET c == Parent(S, ObjOf(S, e))
  IN IF ~(/\ IsCtx(S, c) /\ Occurring(S, c) /\ Occurring(T, c)
          /\ ~Logged(T, Lambda(T, c)) /\ D(S).objs[c].on)
     THEN {}
     ELSE {z \in ToSet(D(S).objs[c].links) \X (1 .. 8) :
             /\ z[2] \in DOMAIN z[1].conds
             /\ z[1].conds[z[2]].e = e /\ z[1].conds[z[2]].t = t}

\* Action x was run: its transition took place, or could not.
Ran(S, x, T) ==
  \/ LoggedT(T, x.e, x.t) \/ Logged(T, Lambda(T, ObjOf(T, x.e)))
  \/ ~Allowed(S.st[x.e], x.t) \/ ~Allowed(T.st[x.e], x.t) \/ Logged(T, x.e)
  \/ ~IsMedia(T, ObjOf(T, x.e))
  \/ EvType(T, x.e) = "a" /\ x.t \in {PAUSE, RESUME}

C02(S, a, T) ==
  (S.g /\ T.g /\ a.op = "act" /\ a.e # 0 /\ T.ret) =>
    LET c == Parent(S, ObjOf(S, a.e)) IN
    \A z \in Waiting(S, a.e, a.t, T) :
      Free(z[1].conds[z[2]].p) =>
        \A i \in DOMAIN z[1].acts :
          LET x == z[1].acts[i] IN
          IF Undelayed(x) THEN Ran(S, x, T)
          ELSE Const(x.dl) =>
                 \E k \in DOMAIN T.dl[c] :
                   /\ T.dl[c][k].e = x.e /\ T.dl[c][k].t = x.t
                   /\ T.dl[c][k].at = T.tm[c] + Str[x.dl].t

\* The transitions of an event of a reaction follow one another: each is
\* possible after the ones before it, or after the object fell asleep.
RECURSIVE Follows(_, _)
Follows(cur, ts) ==
  \/ ts = <<>>
  \/ /\ Allowed(cur, Head(ts)) \/ Allowed(SLEEPING, Head(ts))
     /\ Follows(Target(Head(ts)), Tail(ts))

C03(S, a, T) ==
  (S.g /\ T.g) =>
    /\ \A e \in EvNums(T) :
         LET l == SelectSeq(T.log, LAMBDA x : x[1] = e)
             ts == [i \in DOMAIN l |-> l[i][2]]
         IN /\ Follows(S.st[e], ts)
            /\ ts # <<>> => T.st[e] \in {Target(ts[Len(ts)]), SLEEPING}
            /\ ts = <<>> => T.st[e] \in {S.st[e], SLEEPING}
    \* what nothing asked for does not happen
    /\ (a.op = "act" /\ ~T.ret) => T.log = <<>> \/ HasLinks(T) \/ IsSwitch(T, ObjOf(T, a.e))
         \/ IsCtx(T, ObjOf(T, a.e)) \/ IsSwitch(T, Parent(T, ObjOf(T, a.e)))
         \/ \E i \in DOMAIN Evs(T, ObjOf(T, a.e)) : Logged(T, Evs(T, ObjOf(T, a.e))[i])

\* No attribution takes place: guards hold or not throughout.
Still(T) == \A i \in DOMAIN T.log : EvType(T, T.log[i][1]) # "a"

C21(S, a, T) ==
  (S.g /\ T.g /\ a.op = "act" /\ a.e # 0 /\ T.ret /\ Still(T)) =>
    LET W == Waiting(S, a.e, a.t, T) IN
    \A z \in W :
      \A i \in DOMAIN z[1].acts :
        LET x == z[1].acts[i]
            \* nothing else leads to it
            only == /\ \A o \in ObjNums(T) : \A y \in ToSet(D(T).objs[o].links) :
                          \A k \in DOMAIN y.acts :
                             y.acts[k].e = x.e /\ y.acts[k].t = x.t => y = z[1]
                    /\ x.e # a.e /\ Len(z[1].conds) = 1
        IN Undelayed(x) =>
             /\ Holds(S, z[1].conds[z[2]].p) => Ran(S, x, T)
             /\ (~Holds(S, z[1].conds[z[2]].p) /\ only) => ~LoggedT(T, x.e, x.t)

-----------------------------------------------------------------------------
(* Pictures. *)

\* Media that have something to be drawn with.
Up(T) == {o \in ObjNums(T) : Type(T, o) = "media" /\ T.pl[o] # 0}

Min2(i, j) == IF i < j THEN i ELSE j
Max2(i, j) == IF i < j THEN j ELSE i

\* Nothing of o changes gradually any more.
AtRest(T, o) ==
  \A n \in DOMAIN T.an[o] : n # "wipe:diagonal" /\ T.pt[o] - T.an[o][n].at >= T.an[o][n].d

\* What is left of past changes makes no difference.
Forgotten(T, o) ==
  LET U == [T EXCEPT !.an[o] = NoProps, !.pt[o] = 0]
      l == Layer(T, o)  m == Layer(U, o)
  IN AtRest(T, o) => \/ l = m
                     \/ l.any    \* transitions not described
                     \/ /\ l.t # <<>>   \* stretched
                        /\ [l EXCEPT !.t = <<>>, !.tx = m.tx, !.ty = m.ty] = [m EXCEPT !.t = <<>>]
                     \/ /\ l.c # m.c  \* a background that was and went
                        /\ Background(T, o) = ""

Grid(n) == {n \div 8, n \div 2, (7 * n) \div 8, n - 1}

\* The topmost object that covers a point, if it is opaque, is all that is
\* seen there; where there is nothing, the screen is.
Topmost(T) ==
  LET L == Layers(T)
      bg == IF T.bg = "" THEN <<0, 0, 0>> ELSE Str[T.bg].c
      plain(l) == l.a = 255 /\ l.c # <<>> /\ l.q = <<>> /\ l.t = <<>> /\ l.f = <<>> /\ ~l.any
      zi(l) == Rank(GetP(T, l.o, "zIndex"))
      zo(l) == Rank(GetP(T, l.o, "zOrder"))
      below(m, l) == zi(m) < zi(l) \/ (zi(m) = zi(l) /\ zo(m) < zo(l))
      near(l, x, y) == Near0(l.x, x, WIDE) /\ Near0(l.y, y, WIDE)
  IN \A x \in Grid(T.scr[1]), y \in Grid(T.scr[2]) :
       /\ (\A l \in L : ~near(l, x, y)) => Colours(bg, L, x, y) = {bg}
       /\ \A l \in L :
            (/\ plain(l) /\ Surely(l.u, x) /\ Surely(l.v, y)
             /\ \A m \in L \ {l} : below(m, l) \/ ~near(m, x, y))
            => Colours(bg, L, x, y) = {<<l.c[1][1], l.c[1][2], l.c[1][3]>>}

Resize(T, w, h) == Do(T, [op |-> "resize", w |-> w, h |-> h])

C25(S, a, T) ==
  T.g =>
    /\ (S.g /\ a.op = "resize") =>
         /\ T.scr = <<a.w, a.h>> /\ T.log = <<>>
         /\ T.st = S.st /\ T.tm = S.tm /\ T.pr = S.pr /\ T.pl = S.pl
    /\ \A o \in Up(T) :
         /\ Forgotten(T, o)
         /\ AtRest(T, o) =>
              LET x == PlaceX(T, o)  y == PlaceY(T, o)
                  given(n) == GetP(T, o, n) # ""
              IN /\ (~given("left") /\ ~given("right")) => x.x = <<0, 0>>
                 /\ (~given("top") /\ ~given("bottom")) => y.x = <<0, 0>>
                 /\ ~given("width") => x.w = <<T.scr[1], T.scr[1]>>
                 /\ ~given("height") => y.w = <<T.scr[2], T.scr[2]>>
                 \* from the right: it ends there
                 /\ (given("right") /\ ~given("left")
                       /\ GetP(T, o, "right") \in {"0", "0%"}) =>
                       T.scr[1] \in x.x[1] + x.w[1] .. x.x[2] + x.w[2]
    /\ Topmost(T)
    \* there and back
    /\ (\A o \in Up(T) : T.an[o] = NoProps) =>
         Layers(Resize(Resize(T, 2 * T.scr[1] + 3, T.scr[2] + 7), T.scr[1], T.scr[2]))
           = Layers(T)

C26(S, a, T) ==
  T.g =>
    \A o \in Up(T) : \A n \in DOMAIN T.an[o] :
      LET x == T.an[o][n]
          e == T.pt[o] - x.at
          p == Progress(T, o, x)
          far(U) == LET q == Progress(U, o, x)
                    IN [i \in DOMAIN q |-> Max2(x.t[i][1] - q[i][2], q[i][1] - x.t[i][2])]
      IN /\ \A i \in DOMAIN p : /\ p[i][1] <= p[i][2]
                                /\ Min2(x.f[i][1], x.t[i][1]) <= p[i][1]
                                /\ p[i][2] <= Max2(x.f[i][2], x.t[i][2])
         /\ e >= x.d => p = x.t
         /\ (e = 0 /\ x.d > 0) => p = x.f
         \* it goes to the value the property has
         /\ n \in Animated => x.t = Goal(T, o, n, GetP(T, o, n))
         /\ (/\ S.g /\ o \in Up(S) /\ n \in DOMAIN S.an[o] /\ S.an[o][n] = x
             /\ S.pt[o] <= T.pt[o]) =>
               \A i \in DOMAIN p : far(T)[i] <= Max2(far(S)[i], 0)
         /\ (S.g /\ a.op = "tick" /\ ~Occurring(S, o) /\ Paused(T, o) /\ ~Logged(T, Lambda(T, o))
               /\ n \in DOMAIN S.an[o]) => Progress(S, o, S.an[o][n]) = p

C28(S, a, T) ==
  T.g =>
    /\ \A o \in ObjNums(T) : T.pl[o] = 0 => T.an[o] = NoProps
    /\ \A o \in Up(T) :
         LET tr == Str[GetP(T, o, "transIn")].tr
             l == Layer(T, o)
         IN /\ (/\ S.g /\ S.pl[o] = 0 /\ T.pt[o] = 0 /\ tr.d > 0
                /\ ~\E i \in DOMAIN T.log : EvType(T, T.log[i][1]) = "a") =>
                 /\ tr.k = "fade"  => l.a = 0
                 /\ tr.k = "right" => l.any \/ l.u.w = <<0, 0>>
                 /\ tr.k = "down"  => l.any \/ l.v.w = <<0, 0>>
            /\ l.u.w[2] <= Max2(l.x.w[2], 0) \/ l.any
            /\ l.v.w[2] <= Max2(l.y.w[2], 0) \/ l.any
            /\ (T.pt[o] >= tr.d /\ AtRest(T, o) /\ ~l.any) =>
                 /\ l.u = l.x /\ l.v = l.y
                 /\ l.a = Opacity(GetP(T, o, "transparency"))[1]
            /\ (S.g /\ a.op = "tick" /\ Paused(S, o) /\ Paused(T, o) /\ ~Logged(T, Lambda(T, o)))
                 => /\ Layer(S, o).u = l.u /\ Layer(S, o).v = l.v /\ Layer(S, o).a = l.a

C29(S, a, T) ==
  T.g => \A o \in Up(T) :
    (Str[GetP(T, o, "type")].image /\ GetP(T, o, "visible") # "false") =>
      /\ \E l \in Layers(T) :
           l.o = o /\ l.q = Str[GetP(T, o, "uri")].q /\ l.x = PlaceX(T, o) /\ l.y = PlaceY(T, o)
      /\ Forgotten(T, o)

C30(S, a, T) ==
  T.g => \A o \in Up(T) :
    (GetP(T, o, "type") = "text/plain") =>
      LET l == Layer(T, o)
          within(z, p) == z.ok => /\ p.x[1] <= z.x[1]
                                  /\ z.x[2] + z.w[2] <= p.x[2] + p.w[2] + 1
      IN /\ Forgotten(T, o)
         /\ l.t[1].what = Str[GetP(T, o, "uri")].text
         /\ ~l.t[1].stretched => within(l.tx, l.x) /\ within(l.ty, l.y)
         /\ (AtRest(T, o) /\ ~l.t[1].stretched /\ l.x.ok /\ l.x.w[1] > 2 * RoomX) =>
              CASE GetP(T, o, "horzAlign") = "right"  -> l.tx.x[1] > l.x.x[1] + RoomX
                [] GetP(T, o, "horzAlign") = "center" ->
                     /\ l.x.x[1] < l.tx.x[1] /\ l.tx.x[1] <= l.tx.x[2]
                     /\ l.tx.x[2] + l.tx.w[2] < l.x.x[1] + l.x.w[1]
                [] OTHER -> l.tx.x = l.x.x

C31(S, a, T) ==
  T.g =>
    LET cur == GetP(T, D(T).settings, FOCUS)
    IN {l.o : l \in {m \in Layers(T) : m.f # <<>>}}
         = {o \in Up(T) : /\ cur # "" /\ GetP(T, o, "focusIndex") = cur
                          /\ GetP(T, o, "visible") # "false"}

C32(S, a, T) ==
  /\ T.scr = IF a.op = "resize" THEN <<a.w, a.h>> ELSE S.scr
  /\ T.bg = IF a.op = "background" THEN a.v ELSE S.bg
  /\ a.op \in {"resize", "background"} =>
       /\ T.g = S.g /\ T.ret
       /\ T.g => /\ T.st = S.st /\ T.pr = S.pr /\ T.tm = S.tm /\ T.pl = S.pl
                 /\ T.log = <<>>

C33(S, a, T) ==
  T.g =>
    /\ \A o \in ObjNums(T) : (Type(T, o) = "media" /\ (IsAV(T, o) \/ IsGen(T, o))) =>
         LET A == T.av[o]  lam == Lambda(T, o) IN
         /\ T.pl[o] = (IF Sleeping(T, o) THEN 0 ELSE IF Paused(T, o) THEN 2 ELSE 1)
         /\ T.pl[o] = 0 => A = NoPipe
         /\ T.pl[o] # 0 => A.ready /\ A.todo = <<>>
         /\ (S.g /\ a.op = "tick" /\ S.av[o].eos /\ Occurring(S, o)) =>
              Sleeping(T, o) \/ Logged(T, lam)
         /\ (S.g /\ a.op = "eos" /\ a.o = o /\ GetP(S, o, "freeze") = "true") => A.eos = S.av[o].eos
         /\ (S.g /\ a.op = "redraw" /\ S.av[o].came # <<>>) => A.shown = S.av[o].came
         /\ (S.g /\ a.op = "frame" /\ a.o = o) => (T.ret <=> Occurring(S, o))
         /\ (T.pl[o] # 0 /\ GetP(T, o, "soundLevel") = "") =>
              A.vol = Level(GetP(T, o, "volume"), 100)
         /\ (T.pl[o] # 0 /\ IsAV(T, o)) => A.mute = (GetP(T, o, "mute") = "true")
         /\ (T.pl[o] # 0 /\ IsAV(T, o) /\ GetP(T, o, "balanceLevel") = "") =>
              A.pan = Level(GetP(T, o, "balance"), 0)
         /\ (T.pl[o] # 0 /\ IsAV(T, o) /\ GetP(T, o, "rate") = "") =>
              A.spd = Level(GetP(T, o, "speed"), 100)
         \* other calls leave it where it was
         /\ (S.g /\ S.pl[o] # 0 /\ T.pl[o] # 0 /\ ~Logged(T, lam) /\ a.op # "at"
               /\ ~\E i \in DOMAIN T.sk : T.sk[i][1] = o) => A.pos = S.av[o].pos /\ A.spd = S.av[o].spd
    /\ \A i \in DOMAIN T.sk :
         LET x == T.sk[i] IN
         /\ IsAV(T, x[1])
         /\ x[2] >= 0 /\ x[4] # 0
         /\ IF x[4] > 0 THEN x[3] = -1 ELSE x[2] = 0 /\ x[3] >= 0

Holds_(p, S, a, T) ==
  CASE p = "C01" -> C01(S, a, T) [] p = "C04" -> C04(S, a, T) [] p = "C05" -> C05(S, a, T)
    [] p = "C06" -> C06(S, a, T) [] p = "C07" -> C07(S, a, T) [] p = "C08" -> C08(S, a, T)
    [] p = "C09" -> C09(S, a, T) [] p = "C10" -> C10(S, a, T) [] p = "C11" -> C11(S, a, T)
    [] p = "C12" -> C12(S, a, T) [] p = "C14" -> C14(S, a, T) [] p = "C15" -> C15(S, a, T)
    [] p = "C16" -> C16(S, a, T) [] p = "C17" -> C17(S, a, T) [] p = "C27" -> C27(S, a, T)
    [] p = "C02" -> C02(S, a, T) [] p = "C03" -> C03(S, a, T) [] p = "C21" -> C21(S, a, T)
    [] p = "C25" -> C25(S, a, T) [] p = "C26" -> C26(S, a, T) [] p = "C28" -> C28(S, a, T)
    [] p = "C29" -> C29(S, a, T) [] p = "C30" -> C30(S, a, T) [] p = "C31" -> C31(S, a, T)
    [] p = "C32" -> C32(S, a, T) [] p = "C33" -> C33(S, a, T)
    [] OTHER -> TRUE

\* The properties, of P, that the step breaks.
Broken(S, a, T, P) == {p \in P : ~Holds_(p, S, a, T)}
=============================================================================
