------------------------------ MODULE LoadLua -------------------------------
(***************************************************************************)
(* Documents given as Lua tables: what verdict they get and which document *)
(* an accepted table denotes.                                              *)
(*                                                                         *)
(*   context: {"context", id, properties, ports, children, links}          *)
(*   switch:  {"switch", id, children, rules}, rule: {component, predicate}*)
(*   media:   {"media", id, properties, areas}, area: {name, begin, end}   *)
(*   link:    {conditions, actions}, condition: {transition, event,        *)
(*            predicate}, action: {transition, event, value, parameters}   *)
(*   event:   "id@area", "id@lambda", "id.property", "id<key>"             *)
(*   predicate: {true}, {false}, {"not", p}, {"and"|"or", p, p},           *)
(*            {left, comparator, right}                                    *)
(*                                                                         *)
(* A Lua value is a record: k is its kind ("nil", "b" boolean, "s" string, *)
(* "n" number, "t" table, "o" other); v the text of a string or number, or *)
(* the boolean; a table has its values 1 .. n in a, those with a string    *)
(* key in h, and o is true if it has other keys.                           *)
(***************************************************************************)
EXTENDS Text, TLC, SequencesExt, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.GV_DOCS)

\* i: the document; ph: the phase; V: the objects described.
VARIABLES i, ph, V
vars == <<i, ph, V>>

D == Docs[i]

-----------------------------------------------------------------------------
(* Values. *)

Nil == [k |-> "nil"]
Str(x) == x.k \in {"s", "n"}
Tab(x) == x.k = "t"
Absent(x) == x.k = "nil"
At(x, n) == IF n \in 1 .. Len(x.a) THEN x.a[n] ELSE Nil
Key(x, n) == IF n \in DOMAIN x.h THEN x.h[n] ELSE Nil
Txt(x) == IF Str(x) THEN x.v ELSE ""

\* The values of a list: those with a number, in order, then the others.
Values(x) == IF ~Tab(x) THEN <<>>
             ELSE SelectSeq(x.a, LAMBDA y : ~Absent(y))
                  \o SetToSeq({x.h[n] : n \in DOMAIN x.h})

-----------------------------------------------------------------------------
(* Shape. *)

Cmp == ("==" :> "eq") @@ ("!=" :> "ne") @@ ("<" :> "lt") @@ ("<=" :> "lte")
       @@ (">" :> "gt") @@ (">=" :> "gte")
Trans == ("start" :> 1) @@ ("set" :> 1) @@ ("pause" :> 2) @@ ("resume" :> 3)
         @@ ("stop" :> 4) @@ ("abort" :> 5)

\* A predicate, or [k |-> "!"].
BadPred == [k |-> "!"]
RECURSIVE Pred(_)
Pred(x) ==
  IF ~Tab(x) THEN BadPred
  ELSE LET f == At(x, 1)
           w == LowerS(Txt(f))
       IN IF f.k = "b" THEN [k |-> IF f.v THEN "true" ELSE "false"]
          ELSE IF ~Str(f) THEN BadPred
          ELSE IF w = "not"
          THEN LET p == Pred(At(x, 2))
               IN IF p.k = "!" THEN p ELSE [k |-> "not", c |-> <<p>>]
          ELSE IF w \in {"and", "or"}
          THEN LET p == Pred(At(x, 2))
                   q == Pred(At(x, 3))
               IN IF "!" \in {p.k, q.k} THEN BadPred
                  ELSE [k |-> w, c |-> <<p, q>>]
          ELSE IF Str(At(x, 2)) /\ At(x, 2).v \in DOMAIN Cmp /\ Str(At(x, 3))
          THEN [k |-> "atom", l |-> f.v, t |-> Cmp[At(x, 2).v],
                r |-> At(x, 3).v]
          ELSE BadPred

List(x) == Absent(x) \/ Tab(x)
OptStr(x) == Absent(x) \/ Str(x)

TransFields == <<"type", "subtype", "dur", "startProgress", "endProgress",
                 "direction", "fadeColor", "horzRepeat", "vertRepeat",
                 "borderWidth", "borderColor">>
TransDefault(n) == CASE n \in {"dur", "startProgress", "endProgress",
                               "horzRepeat", "vertRepeat", "borderWidth"} -> "0"
                     [] n = "direction" -> "forward"
                     [] OTHER -> ""
IsTrans(n) == LowerS(n) \in {"transin", "transout"}
TransOk(x) == Tab(x) /\ Str(Key(x, "type"))
              /\ \A n \in Range(TransFields) : OptStr(Key(x, n))
TransText(x) ==
  "{" \o FoldLeft(LAMBDA acc, n :
            acc \o n \o "='" \o (IF Str(Key(x, n)) THEN Key(x, n).v
                                 ELSE TransDefault(n)) \o "',",
            "", TransFields) \o "}"

PropsOk(x, media) ==
  /\ List(x)
  /\ Tab(x) => /\ ~x.o /\ \A k \in DOMAIN x.a : Absent(x.a[k])
               /\ \A n \in DOMAIN x.h : IF media /\ IsTrans(n)
                                        THEN TransOk(x.h[n]) ELSE Str(x.h[n])

TimeOk(x) == OptStr(x) /\ (Str(x) => TimeOf(x.v).k # "bad")
AreaOk(x) == Tab(x) /\ Str(At(x, 1)) /\ TimeOk(At(x, 2)) /\ TimeOk(At(x, 3))

RoleOk(x) == Tab(x) /\ Str(At(x, 1)) /\ LowerS(At(x, 1).v) \in DOMAIN Trans
             /\ Str(At(x, 2))
CondOk(x) == RoleOk(x) /\ (Absent(At(x, 3)) \/ Pred(At(x, 3)).k # "!")
ActOk(x) == /\ RoleOk(x) /\ OptStr(At(x, 3)) /\ List(At(x, 4))
            /\ Tab(At(x, 4)) => /\ OptStr(Key(At(x, 4), "delay"))
                                /\ OptStr(Key(At(x, 4), "duration"))
LinkOk(x) == /\ Tab(x) /\ Tab(At(x, 1)) /\ Tab(At(x, 2))
             /\ Values(At(x, 1)) # <<>> /\ Values(At(x, 2)) # <<>>
             /\ \A c \in Range(Values(At(x, 1))) : CondOk(c)
             /\ \A a \in Range(Values(At(x, 2))) : ActOk(a)
RuleOk(x) == Tab(x) /\ Str(At(x, 1)) /\ Pred(At(x, 2)).k # "!"

Tag(x) == IF Tab(x) /\ At(x, 1).k = "s" THEN At(x, 1).v ELSE ""
Kids(x) == Values(At(x, IF Tag(x) = "context" THEN 5 ELSE 3))

RECURSIVE ShapeOk(_)
ShapeOk(x) ==
  /\ Tag(x) \in {"context", "switch", "media"} /\ Str(At(x, 2))
  /\ CASE Tag(x) = "media" ->
            /\ PropsOk(At(x, 3), TRUE) /\ List(At(x, 4))
            /\ \A y \in Range(Values(At(x, 4))) : AreaOk(y)
       [] Tag(x) = "switch" ->
            /\ List(At(x, 3)) /\ List(At(x, 4))
            /\ \A y \in Range(Values(At(x, 4))) : RuleOk(y)
            /\ \A y \in Range(Kids(x)) : ShapeOk(y)
       [] OTHER ->
            /\ PropsOk(At(x, 3), FALSE)
            /\ List(At(x, 4)) /\ List(At(x, 5)) /\ List(At(x, 6))
            /\ \A y \in Range(Values(At(x, 4))) : Str(y)
            /\ \A y \in Range(Values(At(x, 6))) : LinkOk(y)
            /\ \A y \in Range(Kids(x)) : ShapeOk(y)

-----------------------------------------------------------------------------
(* Objects. *)

TypeOf(x) == IF Tag(x) = "context" THEN "ctx" ELSE Tag(x)
RECURSIVE Nodes(_, _)
Nodes(x, par) ==
  LET id == IF par = "" THEN "__root__" ELSE At(x, 2).v
  IN <<[id |-> id, par |-> par, ty |-> TypeOf(x), x |-> x]>>
     \o IF Tag(x) = "media" THEN <<>>
        ELSE LET ks == Kids(x)
             IN FoldLeft(LAMBDA acc, k : acc \o Nodes(k, id), <<>>, ks)

All == DOMAIN V
Name(k) == V[k].id
Unique == /\ \A j, k \in All : Name(j) = Name(k) => j = k
          /\ \A k \in All : Name(k) # At(V[1].x, 2).v

PropTable(k) == IF V[k].ty \in {"ctx", "media"} THEN At(V[k].x, 3) ELSE Nil
PropName(k, n) == IF V[k].ty = "media" /\ LowerS(n) = "src" THEN "uri" ELSE n
Src(s) == IF s = "" \/ Find(s, ":") > 0 \/ Ch(s, 1) = "/" THEN s
          ELSE "@/" \o SubSeq(D.main, 1, Len(D.main) - Len(D.base)) \o s
PropVal(k, n) ==
  LET x == PropTable(k).h[n]
  IN IF V[k].ty = "media" /\ LowerS(n) = "src" THEN Src(x.v)
     ELSE IF V[k].ty = "media" /\ IsTrans(n) THEN TransText(x) ELSE x.v
PropKeys(k) == IF Tab(PropTable(k)) THEN DOMAIN PropTable(k).h ELSE {}
Areas(k) == IF V[k].ty = "media" THEN Values(At(V[k].x, 4)) ELSE <<>>

Ev(o, ty, id) == [o |-> o, ty |-> ty, id |-> id]
EvsOf(k) ==
  {Ev(Name(k), "p", "@lambda")}
  \cup {Ev(Name(k), "a", PropName(k, n)) : n \in PropKeys(k)}
  \cup {Ev(Name(k), "p", At(y, 1).v) : y \in Range(Areas(k))}
Settings == {Ev("__settings__", "p", "@lambda"),
             Ev("__settings__", "a", "service.currentFocus")}

-----------------------------------------------------------------------------
(* Events of links and ports. *)

BadEv == Ev("!", "", "")
\* The event that a text denotes in context k.
Denotes(k, s) ==
  LET a == Find(s, "@")
      d == Find(s, ".")
      l == Find(s, "<")
      pre(n) == SubSeq(s, 1, n - 1)
      post(n) == SubSeq(s, n + 1, Len(s))
      kids == {j \in All : V[j].par = Name(k)}
      among(e) == IF e \in UNION {EvsOf(j) : j \in kids}
                     \/ (V[k].par = "" /\ e \in Settings)
                  THEN e ELSE BadEv
  IN IF a > 0
     THEN among(Ev(pre(a), "p", IF LowerS(post(a)) = "lambda" THEN "@lambda"
                                ELSE post(a)))
     ELSE IF d > 0 THEN among(Ev(pre(d), "a", post(d)))
     ELSE IF l > 0 /\ Ch(s, Len(s)) = ">"
     THEN IF pre(l) \in {Name(j) : j \in kids}
             \/ (V[k].par = "" /\ pre(l) = "__settings__")
          THEN Ev(pre(l), "s", SubSeq(s, l + 1, Len(s) - 1)) ELSE BadEv
     ELSE BadEv

Once(q) == FoldLeft(LAMBDA acc, e : IF e \in Range(acc) THEN acc
                                    ELSE Append(acc, e), <<>>, q)
Map(q, F(_)) == [n \in 1 .. Len(q) |-> F(q[n])]

Ports(k) == LET F(y) == Denotes(k, y.v)
            IN Once(Map(Values(At(V[k].x, 4)), F))
Links(k) ==
  LET cond(y) == [e |-> Denotes(k, At(y, 2).v),
                  t |-> Trans[LowerS(At(y, 1).v)],
                  p |-> IF Absent(At(y, 3)) THEN [k |-> "none"]
                        ELSE Pred(At(y, 3))]
      param(y, n) == IF Tab(At(y, 4)) THEN Txt(Key(At(y, 4), n)) ELSE ""
      act(y) == [e |-> Denotes(k, At(y, 2).v),
                 t |-> Trans[LowerS(At(y, 1).v)], v |-> Txt(At(y, 3)),
                 du |-> param(y, "duration"), dl |-> param(y, "delay")]
      link(y) == [c |-> Map(Values(At(y, 1)), cond),
                  a |-> Map(Values(At(y, 2)), act)]
  IN Map(Values(At(V[k].x, 6)), link)
Rules(k) ==
  LET kids == {Name(j) : j \in {j \in All : V[j].par = Name(k)}}
      rule(y) == [o |-> IF At(y, 1).v \in kids THEN At(y, 1).v ELSE "!",
                  p |-> Pred(At(y, 2))]
  IN Map(Values(At(V[k].x, 4)), rule)

-----------------------------------------------------------------------------
(* The whole. *)

Odd == \* nothing is claimed
  \/ \E k \in All :
       \/ V[k].ty = "media" /\
            \/ \E n, m \in PropKeys(k) : n # m /\ PropName(k, n) = PropName(k, m)
            \/ \E n \in PropKeys(k) :
                 \/ n = "type" /\ PropVal(k, n) = "application/x-ginga-settings"
                 \/ LowerS(n) = "src" /\
                      \/ ~(Chars(PropTable(k).h[n].v)
                             \subseteq Alnum \cup Chars("._/-:"))
                      \/ D.main = "" /\ Starts(PropVal(k, n), "@/")
            \/ Cardinality({At(y, 1).v : y \in Range(Areas(k))})
                 # Len(Areas(k))
            \/ \E y \in Range(Areas(k)) :
                 \/ At(y, 1).v \in {"@lambda"}
                 \/ \E n \in {2, 3} : Str(At(y, n))
                                      /\ TimeOf(At(y, n).v).k = "odd"
       \/ Name(k) = "" \/ Name(k) = "__settings__"
  \/ At(V[1].x, 2).v \in {"", "__settings__", "__root__"}
  \/ \E k \in All : V[k].ty = "ctx" /\ \E e \in Range(Ports(k)) : e.ty = "s"

Result ==
  LET ctxs == {k \in All : V[k].ty = "ctx"}
      sws == {k \in All : V[k].ty = "switch"}
      by(S, F(_)) == [o \in {Name(k) : k \in S} |->
                       F(CHOOSE k \in S : Name(k) = o)]
      ports == TLCEval(by(ctxs, Ports))
      links == TLCEval(by(ctxs, Links))
      rules == TLCEval(by(sws, Rules))
      used == UNION {UNION {{c.e : c \in Range(l.c)} \cup {a.e : a \in Range(l.a)}
                              : l \in Range(links[o])} : o \in DOMAIN links}
              \cup UNION {Range(ports[o]) : o \in DOMAIN ports}
      plain(e) == [o |-> e.o, ty |-> e.ty, id |-> e.id, l |-> "", b |-> 0,
                   n |-> -1, k |-> IF e.ty = "s" THEN e.id ELSE ""]
      tm(y, n, d) == IF Str(At(y, n)) THEN TimeOf(At(y, n).v).v ELSE d
      area(k, y) == [plain(Ev(Name(k), "p", At(y, 1).v)) EXCEPT
                      !.b = tm(y, 2, 0), !.n = tm(y, 3, -1)]
      events == UNION {{plain(e) : e \in {e \in EvsOf(k) :
                          e.ty = "a" \/ e.id = "@lambda"}}
                       \cup {area(k, y) : y \in Range(Areas(k))} : k \in All}
                \cup {plain(e) : e \in Settings}
                \cup {plain(e) : e \in {e \in used : e.ty = "s"}}
  IN IF ~Unique \/ BadEv \in used
        \/ \E o \in DOMAIN rules : \E r \in Range(rules[o]) : r.o = "!"
     THEN [v |-> "err"]
     ELSE IF Odd THEN [v |-> "any"]
     ELSE [v |-> "ok",
           objs |-> {[id |-> Name(k), ty |-> V[k].ty, par |-> V[k].par,
                      al |-> IF k = 1 THEN {<<At(V[1].x, 2).v, "">>} ELSE {}] :
                       k \in All}
                    \cup {[id |-> "__settings__", ty |-> "settings",
                           par |-> "__root__", al |-> {}]},
           evs |-> events,
           props |-> UNION {{[o |-> Name(k), n |-> PropName(k, n),
                              v |-> PropVal(k, n)] : n \in PropKeys(k)} :
                              k \in All}
                     \cup {[o |-> "__settings__", n |-> "service.currentFocus",
                            v |-> ""],
                           [o |-> "__settings__", n |-> "type",
                            v |-> "application/x-ginga-settings"]},
           ports |-> ports, links |-> links, rules |-> rules,
           sports |-> by(sws, LAMBDA k : {})]

-----------------------------------------------------------------------------
(* Against the real parser. *)

SetOf(s) == {s[k] : k \in DOMAIN s}
Obs ==
  LET o == D.obs
  IN [objs |-> {[id |-> x.id, ty |-> x.ty, par |-> x.par,
                 al |-> SetOf(x.al)] : x \in SetOf(o.objs)},
      evs |-> SetOf(o.evs), props |-> SetOf(o.props), ports |-> o.ports,
      links |-> o.links, rules |-> o.rules,
      sports |-> [x \in DOMAIN o.sports |-> SetOf(o.sports[x])]]

Fields2 == {"objs", "evs", "props", "ports", "links", "rules", "sports"}
Compare(r) ==
  IF D.obs.st = "crash" THEN [what |-> "crash", exp |-> r.v]
  ELSE IF r.v = "any" THEN [what |-> "any"]
  ELSE IF r.v # D.obs.st THEN [what |-> "verdict", exp |-> r.v]
  ELSE IF r.v = "err" THEN [what |-> "same", exp |-> r.v]
  ELSE LET o == TLCEval(Obs)
           df == {f \in Fields2 : o[f] # r[f]}
           dup == {f \in {"objs", "evs", "props"} :
                     Len(D.obs[f]) # Cardinality(o[f])}
       IN IF df = {} /\ dup = {} THEN [what |-> "same", exp |-> r.v]
          ELSE [what |-> "differs", exp |-> [f \in df |-> r[f]],
                dup |-> dup]

Report(r) == PrintT(ToJson([kind |-> r.what, tr |-> i,
                            x |-> IF "exp" \in DOMAIN r THEN r.exp ELSE ""]))

Init == i \in 1 .. Len(Docs) /\ ph = "chunk" /\ V = <<>>

Shape == /\ ph = "chunk"
         /\ ph' = IF Tag(D.tab) = "context" /\ ShapeOk(D.tab)
                  THEN "objects" ELSE "reject"
         /\ UNCHANGED <<i, V>>
Objects == /\ ph = "objects" /\ ph' = "build"
           /\ V' = TLCEval(Nodes(D.tab, ""))
           /\ UNCHANGED i
Build == /\ ph = "build" /\ ph' = "done"
         /\ Report(Compare(TLCEval(Result)))
         /\ UNCHANGED <<i, V>>
Reject == /\ ph = "reject" /\ ph' = "done"
          /\ Report(Compare([v |-> "err"]))
          /\ UNCHANGED <<i, V>>

Next == Shape \/ Objects \/ Build \/ Reject
Spec == Init /\ [][Next]_vars
View == <<i, ph>>
=============================================================================
