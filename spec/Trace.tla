------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks traces recorded from the real presenter against Ginga.tla: each  *)
(* public call must have a step of the specification with the same result. *)
(* One initial state per trace; a trace that is not a behaviour of the     *)
(* specification prints a MISMATCH line and goes no further.               *)
(***************************************************************************)
EXTENDS Draw, Json, IOUtils

File == IOEnv.GV_TRACES
Data == JsonDeserialize(File)
MDocs == Data.docs
MStr == Data.str
MFuel == Data.fuel
Traces == Data.traces

VARIABLES tr, k, S, go

vars == <<tr, k, S, go>>

Proj(log, e) == SelectSeq(log, LAMBDA x : x[1] = e)
SameLog(m, o) ==
  \/ m = o
  \/ /\ Len(m) = Len(o)
     /\ \A i \in DOMAIN m : Proj(m, m[i][1]) = Proj(o, m[i][1])
     /\ \A i \in DOMAIN o : Proj(m, o[i][1]) = Proj(o, o[i][1])

Seeks(sk, i) == SelectSeq(sk, LAMBDA x : x[1] = i)

\* Fields of the observation o that differ from those of state T.
Diff(T, o) ==
  IF o.r # "obs" THEN {}
  ELSE
  (IF o.ret # T.ret THEN {"ret"} ELSE {})
  \cup (IF o.g # T.g THEN {"g"} ELSE {})
  \cup (IF "opt" \in DOMAIN o
        THEN IF o.opt # T.scr \o <<T.bg>> THEN {"opt"} ELSE {}
        ELSE {})
  \cup (IF "gl" \in DOMAIN o THEN IF o.gl # 0 THEN {"gl"} ELSE {} ELSE {})
  \cup (IF ~T.g \/ ~o.g THEN {}
        ELSE
        (IF o.st # T.st THEN {"st"} ELSE {})
        \cup (IF o.tm # T.tm THEN {"tm"} ELSE {})
        \cup (IF \E i \in DOMAIN o.pr :
                   LET p == D(T).props[i] IN o.pr[i] # GetP(T, p.o, p.n)
              THEN {"pr"} ELSE {})
        \cup (IF o.pl # T.pl THEN {"pl"} ELSE {})
        \cup (IF o.foc # T.foc THEN {"foc"} ELSE {})
        \cup (IF \E i \in DOMAIN o.fo : o.fo[i] # Focused(T, i)
              THEN {"fo"} ELSE {})
        \cup (IF ~SameLog(T.log, o.log) THEN {"log"} ELSE {})
        \cup (IF "msg" \in DOMAIN o
              THEN IF \E i \in DOMAIN o.msg \cup DOMAIN T.msg :
                         LET x == IF i \in DOMAIN o.msg THEN o.msg[i][1]
                                  ELSE T.msg[i][1]
                         IN Proj(o.msg, x) # Proj(T.msg, x)
                   THEN {"msg"} ELSE {}
              ELSE {})
        \cup (IF "gs" \notin DOMAIN o THEN {}
              ELSE (IF \E i \in DOMAIN o.gs : o.gs[i] # Playback(T, i)
                    THEN {"gs"} ELSE {})
                   \cup (IF \E i \in DOMAIN o.sv : o.sv[i] # Sound(T, i)
                         THEN {"sv"} ELSE {})
                   \cup (IF \E i \in DOMAIN o.su : o.su[i] # Contents(T, i)
                         THEN {"su"} ELSE {})
                   \cup (IF \E i \in DOMAIN o.gs :
                              Seeks(T.sk, i) # Seeks(o.sk, i)
                         THEN {"sk"} ELSE {}))
        \cup (IF "px" \in DOMAIN o
              THEN IF PictureOK(T, o.px) THEN {} ELSE {"px"}
              ELSE {}))

\* What the specification says of the fields that differ.
Expected(T, f, o) ==
  CASE f = "ret" -> T.ret [] f = "g" -> T.g [] f = "st" -> T.st
    [] f = "tm" -> T.tm [] f = "pl" -> T.pl [] f = "foc" -> T.foc
    [] f = "pr" -> [i \in DOMAIN D(T).props |->
                     GetP(T, D(T).props[i].o, D(T).props[i].n)]
    [] f = "fo" -> [i \in ObjNums(T) |-> Focused(T, i)]
    [] f = "opt" -> T.scr \o <<T.bg>>
    [] f = "px" -> Wrong(T, o.px)
    [] f = "gl" -> 0 [] f = "sk" -> T.sk
    [] f = "gs" -> [i \in ObjNums(T) |-> Playback(T, i)]
    [] f = "sv" -> [i \in ObjNums(T) |-> Sound(T, i)]
    [] f = "su" -> [i \in ObjNums(T) |-> Contents(T, i)]
    [] f = "log" -> T.log [] f = "msg" -> T.msg [] OTHER -> "ok"

Report(kind, i, n, x) == PrintT(ToJson([kind |-> kind, tr |-> i, k |-> n,
                                         x |-> x]))

Init == /\ tr \in 1 .. Len(Traces) /\ k = 0 /\ go = TRUE
        /\ S = [Stopped EXCEPT !.scr = Traces[tr].scr]

Next ==
  /\ go
  /\ k < Len(Traces[tr].steps)
  /\ LET s == Traces[tr].steps[k + 1]
         T == Do(S, s.a)
         out == T.g /\ T.fuel <= 0
         d == Diff(T, s.o)
     IN /\ tr' = tr /\ k' = k + 1
        /\ S' = T
        /\ go' = (~out /\ T.bad = "" /\ d = {} /\ s.o.r = "obs")
        /\ IF out THEN Report("fuel", tr, k + 1, s.o.r)
           ELSE IF T.bad # "" THEN Report("bad", tr, k + 1, T.bad)
           ELSE IF s.o.r # "obs" THEN Report("crash", tr, k + 1, s.o.r)
           ELSE IF d # {}
           THEN Report("mismatch", tr, k + 1, [f \in d |-> Expected(T, f, s.o)])
           ELSE TRUE

Spec == Init /\ [][Next]_vars

View == <<tr, k>>
=============================================================================
