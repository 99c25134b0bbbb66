------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Explores all the states a small document can reach, by any sequence of  *)
(* the calls of an alphabet, up to a depth; checks the properties (module  *)
(* Props) on every step; and prints the graph, from which schedules that   *)
(* go through all of its edges are made and replayed on the real           *)
(* presenter.                                                              *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Data == JsonDeserialize(IOEnv.GV_MODEL)
MDocs == Data.docs
MStr == Data.str
MFuel == Data.fuel
Alph == Data.alph
Depth == Data.depth
Screen == Data.screen
Claims == {Data.claims[i] : i \in DOMAIN Data.claims}
Pictures == Data.pictures     \* each call is followed by a drawing

VARIABLES S, n

vars == <<S, n>>

\* What a delayed action still waits for; times that do not matter are left
\* out.
Left(T, o) == [i \in DOMAIN T.dl[o] |->
                 <<T.dl[o][i].e, T.dl[o][i].t, T.dl[o][i].v, T.dl[o][i].du,
                   IF T.dl[o][i].at = -1 THEN -1
                   ELSE IF T.dl[o][i].at <= T.tm[o] THEN 0
                   ELSE T.dl[o][i].at - T.tm[o]>>]

Abs(T) ==
  IF ~T.g THEN <<"stopped", T.scr, T.bg>>
  ELSE <<T.scr, T.bg,
         [o \in ObjNums(T) |-> IF IsAV(T, o) \/ IsGen(T, o) THEN T.av[o] ELSE <<>>],
         [o \in ObjNums(T) |->
            [x \in DOMAIN T.an[o] |->
               LET a == T.an[o][x]  e == T.pt[o] - a.at
               IN IF "geo" \in DOMAIN a /\ x # "transparency"
                  THEN <<a.t, a.d, e, a.half, a.geo = <<PlaceX(T, o), PlaceY(T, o)>>>>
                  ELSE IF e >= a.d THEN <<>>
                  ELSE <<Progress(T, o, a), a.t, a.d - e>>]],
         T.st, T.sel, T.aw, T.fp, T.pl, T.nf, T.foc, T.inb, T.due,
         [o \in ObjNums(T) |-> Left(T, o)],
         [o \in ObjNums(T) |-> IF T.pd[o] = -1 \/ T.tm[o] = -1 THEN -1
                               ELSE IF T.pd[o] < T.tm[o] THEN -2
                               ELSE T.pd[o] - T.tm[o]],
         [i \in DOMAIN D(T).props |->
            GetP(T, D(T).props[i].o, D(T).props[i].n)]>>

View == Abs(S)

\* The state after a call, and the drawing that may follow it.
REDRAW == [Alph[1] EXCEPT !.op = "redraw"]
After(T) == IF Pictures /\ T.g THEN Do(T, REDRAW) ELSE T

Init == S = After(DoStartDoc(1, Screen, "")) /\ n = 0

Next ==
  \E i \in DOMAIN Alph :
    /\ n < Depth
    /\ LET T == Do(S, Alph[i])
           b == Broken(S, Alph[i], T, Claims)
       IN /\ S' = After(T)
          /\ S' = S'      \* evaluates all of it, so that it can be stored
          /\ n' = n + 1
          /\ PrintT(ToJson([e |-> <<View, i, Abs(After(T))>>, p |-> SetToSeq(b)]))

Spec == Init /\ [][Next]_vars
=============================================================================
