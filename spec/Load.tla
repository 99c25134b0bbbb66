-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* Loading of NCL documents: what verdict the parser must give on an XML   *)
(* tree, and which document an accepted tree denotes.                      *)
(*                                                                         *)
(* Input: the tree(s) as an array of nodes; output: the objects, events,   *)
(* properties, ports, links, rules and switch interfaces, by name.  The    *)
(* specification proceeds in steps: collect the elements visited           *)
(* (following imports), check the syntax of each, resolve, and compare     *)
(* with what the real parser produced.                                     *)
(*                                                                         *)
(* A verdict is "ok", "err" or "any"; the last one where the guarantees    *)
(* say nothing (see Unspecified).                                          *)
(***************************************************************************)
EXTENDS Text, TLC, SequencesExt, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.GV_DOCS)

\* i: the document; ph: the phase; V: the elements visited; X: tables.
VARIABLES i, ph, V, X
vars == <<i, ph, V, X>>

D == Docs[i]

-----------------------------------------------------------------------------
(* Grammar. *)

Nm == {"nonempty", "name"}
RNm == Nm \cup {"req"}
ID == RNm \cup {"id"}
OID == Nm \cup {"id"}
REF == RNm \cup {"ref"}
OREF == Nm \cup {"ref"}
RQ == {"req"}
AN == {}

Head6 == {"connectorBase", "descriptorBase", "regionBase", "ruleBase",
          "transitionBase", "fontBase"}

Syn ==
  [ncl |-> [p |-> {}, a |-> [id |-> OID, title |-> AN, schemaLocation |-> AN,
                             xmlns |-> AN]],
   head |-> [p |-> {"ncl"}, a |-> <<>>],
   regionBase |-> [p |-> {"head"}, a |-> [id |-> OID, device |-> AN,
                                          region |-> AN]],
   region |-> [p |-> {"region", "regionBase"},
               a |-> [id |-> ID, title |-> AN, left |-> AN, right |-> AN,
                      top |-> AN, bottom |-> AN, height |-> AN, width |-> AN,
                      zIndex |-> AN]],
   descriptorBase |-> [p |-> {"head"}, a |-> [id |-> OID]],
   descriptor |-> [p |-> {"descriptorBase"},
      a |-> [id |-> ID, player |-> AN, explicitDur |-> AN, region |-> OREF,
             freeze |-> AN, moveLeft |-> AN, moveRight |-> AN, moveUp |-> AN,
             moveDown |-> AN, focusIndex |-> AN, focusBorderColor |-> AN,
             focusBorderWidth |-> AN, focusBorderTransparency |-> AN,
             focusSrc |-> AN, focusSelSrc |-> AN, selBorderColor |-> AN,
             transIn |-> {"ref"}, transOut |-> {"ref"}, left |-> AN,
             right |-> AN, top |-> AN, bottom |-> AN, height |-> AN,
             width |-> AN, zIndex |-> AN]],
   descriptorParam |-> [p |-> {"descriptor"},
                        a |-> [name |-> RNm, value |-> RQ]],
   connectorBase |-> [p |-> {"head"}, a |-> [id |-> OID]],
   causalConnector |-> [p |-> {"connectorBase"}, a |-> [id |-> ID]],
   connectorParam |-> [p |-> {"causalConnector"},
                       a |-> [name |-> Nm, type |-> AN]],
   compoundCondition |-> [p |-> {"causalConnector", "compoundCondition"},
                          a |-> [operator |-> AN, delay |-> AN]],
   simpleCondition |-> [p |-> {"causalConnector", "compoundCondition"},
      a |-> [role |-> RNm, eventType |-> AN, key |-> AN, transition |-> AN,
             delay |-> AN, min |-> AN, max |-> AN, qualifier |-> AN]],
   compoundAction |-> [p |-> {"causalConnector", "compoundAction"},
                       a |-> [operator |-> AN, delay |-> AN]],
   simpleAction |-> [p |-> {"causalConnector", "compoundAction"},
      a |-> [role |-> RNm, eventType |-> AN, actionType |-> AN,
             duration |-> AN, value |-> AN, delay |-> AN, min |-> AN,
             max |-> AN, qualifier |-> AN, repeat |-> AN, repeatDelay |-> AN,
             by |-> AN]],
   compoundStatement |-> [p |-> {"compoundCondition", "compoundStatement"},
                          a |-> [operator |-> RQ, isNegated |-> AN]],
   assessmentStatement |-> [p |-> {"compoundCondition", "compoundStatement"},
                            a |-> [comparator |-> RQ]],
   attributeAssessment |-> [p |-> {"assessmentStatement"},
      a |-> [role |-> RNm, eventType |-> AN, key |-> AN, attributeType |-> AN,
             offset |-> AN]],
   valueAssessment |-> [p |-> {"assessmentStatement"}, a |-> [value |-> RQ]],
   ruleBase |-> [p |-> {"head"}, a |-> [id |-> OID]],
   compositeRule |-> [p |-> {"ruleBase", "compositeRule"},
                      a |-> [id |-> ID, operator |-> RQ]],
   rule |-> [p |-> {"ruleBase", "compositeRule"},
             a |-> [id |-> ID, var |-> RNm, comparator |-> RQ,
                    value |-> RQ]],
   transitionBase |-> [p |-> {"head"}, a |-> [id |-> OID]],
   transition |-> [p |-> {"transitionBase"},
      a |-> [id |-> ID, type |-> RNm, subtype |-> Nm, dur |-> AN,
             startProgress |-> AN, endProgress |-> AN, direction |-> AN,
             fadeColor |-> AN, horzRepeat |-> AN, vertRepeat |-> AN,
             borderWidth |-> AN, borderColor |-> AN]],
   importBase |-> [p |-> Head6, a |-> [alias |-> RNm, documentURI |-> RQ,
                                       region |-> AN, baseId |-> AN]],
   fontBase |-> [p |-> {"head"}, a |-> <<>>],
   font |-> [p |-> {"fontBase"}, a |-> [fontFamily |-> RQ, src |-> RQ,
                                        fontStyle |-> AN, fontWeight |-> AN]],
   body |-> [p |-> {"ncl"}, a |-> [id |-> OID]],
   context |-> [p |-> {"body", "context", "switch"},
                a |-> [id |-> ID, refer |-> OREF]],
   port |-> [p |-> {"body", "context"},
             a |-> [id |-> ID, component |-> REF, interface |-> OREF]],
   switch |-> [p |-> {"body", "context", "switch"},
               a |-> [id |-> ID, refer |-> OREF]],
   switchPort |-> [p |-> {"switch"}, a |-> [id |-> ID]],
   mapping |-> [p |-> {"switchPort"},
                a |-> [component |-> REF, interface |-> OREF]],
   bindRule |-> [p |-> {"switch"}, a |-> [constituent |-> REF, rule |-> REF]],
   defaultComponent |-> [p |-> {"switch"}, a |-> [component |-> REF]],
   media |-> [p |-> {"body", "context", "switch"},
              a |-> [id |-> ID, src |-> AN, type |-> AN, descriptor |-> OREF,
                     refer |-> OREF, instance |-> AN]],
   area |-> [p |-> {"media"}, a |-> [id |-> ID, begin |-> AN, end |-> AN,
                                     label |-> AN]],
   property |-> [p |-> {"body", "context", "media"},
                 a |-> [name |-> RNm, value |-> AN]],
   link |-> [p |-> {"body", "context"}, a |-> [id |-> OID,
                                               xconnector |-> REF]],
   linkParam |-> [p |-> {"link"}, a |-> [name |-> RNm, value |-> RQ]],
   bind |-> [p |-> {"link"}, a |-> [role |-> RNm, component |-> REF,
                                    interface |-> OREF]],
   bindParam |-> [p |-> {"bind"}, a |-> [name |-> RNm, value |-> RQ]]]

-----------------------------------------------------------------------------
(* Elements visited.  k: "elt"; "shell" (root and head of an imported file, *)
(* of which only the declared attributes and the kinds of children are      *)
(* looked at); "err" (an import that cannot be done).                       *)

Node(n) == D.nodes[n]
NTag(n) == Node(n).t
NAt(n, a) == IF a \in DOMAIN Node(n).a THEN Node(n).a[a] ELSE ""
NKids(n, t) == SelectSeq(Node(n).k, LAMBDA c : NTag(c) = t)

RECURSIVE DirEnd(_, _)
DirEnd(s, k) == IF k = 0 \/ Ch(s, k) = "/" THEN k ELSE DirEnd(s, k - 1)
Dir(s) == SubSeq(s, 1, DirEnd(s, Len(s)))
RECURSIVE Join(_, _)
Join(d, s) == IF Starts(s, "./") THEN Join(d, SubSeq(s, 3, Len(s)))
              ELSE IF Starts(s, "../") /\ d # ""
              THEN Join(Dir(SubSeq(d, 1, Len(d) - 1)), SubSeq(s, 4, Len(s)))
              ELSE d \o s

It(k, n, up, pfx) == [k |-> k, n |-> n, up |-> up, pfx |-> pfx]

RECURSIVE Visit(_, _, _, _, _)
VisitAll(ns, up, pfx, stk, acc) ==
  FoldLeft(LAMBDA a, c : Visit(c, up, pfx, stk, a), acc, ns)

Import(n, pfx, stk, acc) ==
  LET from == IF stk = <<>> THEN D.main ELSE stk[Len(stk)]
      uri == NAt(n, "documentURI")
      path == IF Starts(uri, "@/")     \* absolute
              THEN SubSeq(uri, 3, Len(uri))
              ELSE IF Starts(uri, "file://@/") THEN SubSeq(uri, 10, Len(uri))
              ELSE Join(Dir(from), uri)
      bt == NTag(Node(n).p)
      pf == pfx \o NAt(n, "alias") \o "#"
      err == Append(acc, It("err", n, 0, pf))
  IN IF path \in Range(stk) \/ path \notin DOMAIN D.files THEN err
     ELSE IF D.files[path] = 0 THEN err
     ELSE LET root == D.files[path]
              heads == NKids(root, "head")
              a1 == Append(acc, It("shell", root, 0, pf))
          IN IF NTag(root) # "ncl" \/ heads = <<>> THEN err
             ELSE LET hd == heads[1]
                      a2 == Append(a1, It("shell", hd, 0, pf))
                      bases == NKids(hd, bt)
                      extra == IF bt = "descriptorBase"
                               THEN NKids(hd, "regionBase")
                                    \o NKids(hd, "transitionBase")
                               ELSE <<>>
                  IN IF bases = <<>> THEN err
                     ELSE VisitAll(bases \o extra, 0, pf, Append(stk, path),
                                   a2)

Visit(n, up, pfx, stk, acc) ==
  LET me == Len(acc) + 1
      a1 == Append(acc, It("elt", n, up, pfx))
      a2 == IF NTag(n) = "importBase" THEN Import(n, pfx, stk, a1) ELSE a1
  IN VisitAll(Node(n).k, me, pfx, stk, a2)

-----------------------------------------------------------------------------
(* Syntax. *)

N == Len(V)
Known(t) == t \in DOMAIN Syn

\* The elements with their tags, attributes and children.  Identifiers and
\* references live in the name space of the import alias.
Full(v) ==
  LET kids == FoldLeft(LAMBDA f, j : IF v[j].up = 0 THEN f
                                     ELSE [f EXCEPT ![v[j].up] =
                                             Append(@, j)],
                       [j \in 1 .. Len(v) |-> <<>>],
                       [j \in 1 .. Len(v) |-> j])
      val(j, a) == LET t == NTag(v[j].n)
                       x == NAt(v[j].n, a)
                   IN IF Known(t) /\ a \in DOMAIN Syn[t].a
                         /\ Syn[t].a[a] \cap {"id", "ref"} # {}
                      THEN v[j].pfx \o x ELSE x
  IN [j \in 1 .. Len(v) |->
       [k |-> v[j].k, n |-> v[j].n, up |-> v[j].up, pfx |-> v[j].pfx,
        t |-> NTag(v[j].n), kids |-> kids[j],
        a |-> [a \in DOMAIN Node(v[j].n).a |-> val(j, a)]]]

Tag(j) == V[j].t
Is(j, a, f) == a \in DOMAIN Syn[Tag(j)].a /\ f \in Syn[Tag(j)].a[a]
Has(j, a) == a \in DOMAIN V[j].a
At(j, a) == IF Has(j, a) THEN V[j].a[a] ELSE ""
Id(j) == At(j, "id")

AttrOk(j, a) ==
  IF ~Has(j, a) THEN ~Is(j, a, "req")
  ELSE LET v == NAt(V[j].n, a)
       IN /\ Is(j, a, "nonempty") => v # ""
          /\ Is(j, a, "name") => Chars(v) \subseteq NameChars

SyntaxOk(j) ==
  /\ V[j].k # "err"
  /\ Known(Tag(j))
  /\ LET n == Node(V[j].n)
         s == Syn[Tag(j)]
     IN /\ s.p = {} \/ (n.p # 0 /\ NTag(n.p) \in s.p)
        /\ \A a \in DOMAIN s.a : AttrOk(j, a)
        /\ V[j].k = "elt" => DOMAIN n.a \subseteq DOMAIN s.a
        /\ \A c \in Range(n.k) : Known(NTag(c)) /\ Tag(j) \in Syn[NTag(c)].p

WithId == SelectSeq([j \in 1 .. N |-> j],
                    LAMBDA j : "id" \in DOMAIN Syn[Tag(j)].a /\ Has(j, "id"))
Ids == {Id(j) : j \in Range(WithId)}
UniqueIds == /\ Cardinality(Ids) = Len(WithId)
             /\ Ids \cap {"__root__", "__settings__"} = {}

-----------------------------------------------------------------------------
(* Elements by kind; relations among them. *)

Tables == [all |-> [t \in DOMAIN Syn |->
                     {j \in 1 .. N : V[j].k = "elt" /\ Tag(j) = t}],
           ids |-> [x \in Ids |-> CHOOSE j \in Range(WithId) : Id(j) = x]]

All(t) == X.all[t]
Up(j) == V[j].up
Kids(j) == V[j].kids
KidsT(j, t) == SelectSeq(V[j].kids, LAMBDA k : Tag(k) = t)
Ordered(S) == SetToSortSeq(S, <)
ById(ts, x) == IF x \notin DOMAIN X.ids THEN {}
               ELSE {j \in {X.ids[x]} : Tag(j) \in ts}
RECURSIVE Anc(_, _)
Anc(j, t) == IF Tag(j) = t THEN j ELSE Anc(Up(j), t)

Conn == [not |-> "not", and |-> "and", or |-> "or"]
Cmp == {"eq", "ne", "lt", "lte", "gt", "gte"}
Bools == [true |-> TRUE, false |-> FALSE]
TrNum == [start |-> 1, starts |-> 1, pause |-> 2, pauses |-> 2, resume |-> 3,
          resumes |-> 3, stop |-> 4, stops |-> 4, abort |-> 5, aborts |-> 5]
TyLet == [presentation |-> "p", attribution |-> "a", selection |-> "s",
          lookat |-> "l"]
Reserved ==
  [onBegin |-> <<"p", 1>>, onEnd |-> <<"p", 4>>, onAbort |-> <<"p", 5>>,
   onPause |-> <<"p", 2>>, onResume |-> <<"p", 3>>,
   onBeginAttribution |-> <<"a", 1>>, onEndAttribution |-> <<"a", 4>>,
   onSelection |-> <<"s", 1>>, onLookAt |-> <<"l", 1>>,
   onLookAway |-> <<"l", 4>>, onBeginSelection |-> <<"s", 1>>,
   onEndSelection |-> <<"s", 4>>,
   start |-> <<"p", 1>>, stop |-> <<"p", 4>>, abort |-> <<"p", 5>>,
   pause |-> <<"p", 2>>, resume |-> <<"p", 3>>, set |-> <<"a", 1>>]
OnRoles == {"onBegin", "onEnd", "onAbort", "onPause", "onResume",
            "onBeginAttribution", "onEndAttribution", "onSelection",
            "onLookAt", "onLookAway", "onBeginSelection", "onEndSelection"}

-----------------------------------------------------------------------------
(* Connectors. *)

IsCond(j) == Tag(j) = "simpleCondition"
TrAttr(j) == IF IsCond(j) THEN "transition" ELSE "actionType"
RoleTy(j) == LET r == At(j, "role")
             IN IF r \in DOMAIN Reserved THEN Reserved[r]
                ELSE <<TyLet[At(j, "eventType")], TrNum[At(j, TrAttr(j))]>>
RoleOk(j) ==
  LET r == At(j, "role")
      et == At(j, "eventType")
      tr == At(j, TrAttr(j))
  IN /\ IF r \in DOMAIN Reserved
        THEN /\ IsCond(j) = (r \in OnRoles)
             /\ Has(j, "eventType") => et \in DOMAIN TyLet
                                       /\ TyLet[et] = Reserved[r][1]
             /\ Has(j, TrAttr(j)) => tr \in DOMAIN TrNum
                                     /\ TrNum[tr] = Reserved[r][2]
        ELSE Has(j, "eventType") /\ et \in DOMAIN TyLet
             /\ Has(j, TrAttr(j)) /\ tr \in DOMAIN TrNum
     /\ (~IsCond(j) /\ RoleTy(j)[1] = "a") => Has(j, "value")

Roles(c) == Ordered({k \in All("simpleCondition") \cup All("simpleAction") :
                       Anc(k, "causalConnector") = c})
ConnOk(c) == LET r == Roles(c)
             IN /\ \E k \in Range(r) : IsCond(k)
                /\ \E k \in Range(r) : ~IsCond(k)

StmtTags == {"compoundStatement", "assessmentStatement"}
Stmts(j) == SelectSeq(Kids(j), LAMBDA k : Tag(k) \in StmtTags)
StmtOk(j) ==
  IF Tag(j) = "compoundStatement"
  THEN /\ At(j, "operator") \in DOMAIN Conn
       /\ Has(j, "isNegated") => LowerS(At(j, "isNegated")) \in DOMAIN Bools
       /\ IF At(j, "operator") = "not" THEN Len(Stmts(j)) = 1
          ELSE Len(Stmts(j)) >= 2
  ELSE At(j, "comparator") \in Cmp /\ Len(Kids(j)) = 2

Side(j) == IF Tag(j) = "attributeAssessment" THEN "$" \o At(j, "role")
           ELSE At(j, "value")
RECURSIVE Stmt(_)
Stmt(j) ==
  IF Tag(j) = "compoundStatement"
  THEN LET ss == Stmts(j)
           p == [k |-> At(j, "operator"),
                 c |-> [x \in 1 .. Len(ss) |-> Stmt(ss[x])]]
       IN IF Has(j, "isNegated") /\ Bools[LowerS(At(j, "isNegated"))]
          THEN [k |-> "not", c |-> <<p>>] ELSE p
  ELSE [k |-> "atom", l |-> Side(Kids(j)[1]), t |-> At(j, "comparator"),
        r |-> Side(Kids(j)[2])]

\* The statements that guard a condition: those of all compound conditions
\* around it.
RECURSIVE GuardStmts(_)
GuardStmts(j) ==
  IF Tag(Up(j)) = "causalConnector" THEN <<>>
  ELSE LET u == Up(j)
           ss == Stmts(u)
       IN GuardStmts(u) \o [x \in 1 .. Len(ss) |-> Stmt(ss[x])]
Guard(j) == LET g == GuardStmts(j)
            IN IF g = <<>> THEN [k |-> "none"] ELSE [k |-> "and", c |-> g]

Tests(c) == {At(j, "role") : j \in {j \in All("attributeAssessment") :
                                     Anc(j, "causalConnector") = c}}

\* Predicates up to the shape of conjunctions and disjunctions.
RECURSIVE Norm(_)
Norm(p) ==
  IF p.k \in {"and", "or"}
  THEN LET c == FlattenSeq([x \in 1 .. Len(p.c) |->
                  LET q == Norm(p.c[x])
                  IN IF q.k = p.k THEN q.c ELSE <<q>>])
       IN IF Len(c) = 1 THEN c[1] ELSE [k |-> p.k, c |-> c]
  ELSE IF p.k = "not" THEN [k |-> "not", c |-> [x \in 1 .. Len(p.c) |->
                                                 Norm(p.c[x])]]
  ELSE p
NormGuard(p) == LET q == Norm(p)
                IN IF q.k = "and" /\ q.c = <<>> THEN [k |-> "none"] ELSE q

-----------------------------------------------------------------------------
(* Rules. *)

RuleKids(j) == SelectSeq(Kids(j), LAMBDA k : Tag(k) \in {"rule",
                                                         "compositeRule"})
RuleOk(j) == IF Tag(j) = "rule" THEN At(j, "comparator") \in Cmp
             ELSE /\ At(j, "operator") \in DOMAIN Conn
                  /\ At(j, "operator") = "not" => Len(RuleKids(j)) <= 1
RECURSIVE RulePred(_)
RulePred(j) ==
  IF Tag(j) = "rule"
  THEN [k |-> "atom", l |-> "$__settings__." \o At(j, "var"),
        t |-> At(j, "comparator"), r |-> At(j, "value")]
  ELSE LET ks == RuleKids(j)
       IN [k |-> At(j, "operator"),
           c |-> [x \in 1 .. Len(ks) |-> RulePred(ks[x])]]
SwitchRule(j) == IF Tag(j) = "compositeRule" /\ RuleKids(j) = <<>>
                 THEN [k |-> "false"] ELSE RulePred(j)

-----------------------------------------------------------------------------
(* Regions and descriptors. *)

\* "12", "12.5%"; -1: a number on which nothing is claimed.
Len100(s, base) ==
  LET pc == Len(s) > 0 /\ Ch(s, Len(s)) = "%"
      u == IF pc THEN SubSeq(s, 1, Len(s) - 1) ELSE s
      m == Milli(u)
  IN IF s = "" THEN 0
     ELSE IF m < 0 \/ m > 900000 THEN -1
     ELSE IF ~pc THEN IF m % 1000 = 500 THEN -1 ELSE (m + 500) \div 1000
     ELSE IF base < 0 \/ base > 2000 \/ m % 100 # 0 THEN -1
     ELSE LET q == (m \div 100) * base        \* thousandths of pixels
          IN IF q % 1000 = 500 THEN -1 ELSE (q + 500) \div 1000

RegionAts == {"left", "top", "width", "height", "right", "bottom"}
Horiz == {"left", "width", "right"}
RECURSIVE Rect(_)
Outer(j) == IF Tag(Up(j)) = "region" THEN Rect(Up(j))
            ELSE [x |-> 0, y |-> 0, w |-> D.w, h |-> D.h]
Dim(j, a) == Len100(At(j, a), IF a \in Horiz THEN Outer(j).w ELSE Outer(j).h)
Rect(j) ==
  LET o == Outer(j)
      w == IF Has(j, "width") THEN Dim(j, "width") ELSE o.w
      h == IF Has(j, "height") THEN Dim(j, "height") ELSE o.h
      x0 == o.x + (IF Has(j, "left") THEN Dim(j, "left") ELSE 0)
      y0 == o.y + (IF Has(j, "top") THEN Dim(j, "top") ELSE 0)
  IN [w |-> w, h |-> h,
      x |-> IF Has(j, "right") THEN x0 + o.w - w - Dim(j, "right") ELSE x0,
      y |-> IF Has(j, "bottom") THEN y0 + o.h - h - Dim(j, "bottom") ELSE y0]
RegionOdd(j) == \E a \in RegionAts : Has(j, a) /\ Dim(j, a) = -1

RECURSIVE Trim0(_)
Trim0(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0"
            THEN Trim0(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* v / base as a percentage (base divides 100000).
Pct(v, base) ==
  LET m == (IF v < 0 THEN 0 - v ELSE v) * (100000 \div base)
      f == Trim0(SubSeq(ToString(1000 + (m % 1000)), 2, 4))
  IN (IF v < 0 THEN "-" ELSE "") \o ToString(m \div 1000)
     \o (IF f = "" THEN "" ELSE "." \o f) \o "%"

RegionSeq == Ordered(All("region"))
ZOrder(j) == Cardinality({k \in All("region") : k < j})
RegionAttrs(j) ==
  [a \in ((DOMAIN V[j].a) \ {"id"})
         \cup {"zOrder", "left", "top", "width", "height"} |->
     CASE a = "zOrder" -> ToString(ZOrder(j))
       [] a = "left" -> Pct(Rect(j).x, D.w)
       [] a = "top" -> Pct(Rect(j).y, D.h)
       [] a = "width" -> Pct(Rect(j).w, D.w)
       [] a = "height" -> Pct(Rect(j).h, D.h)
       [] OTHER -> At(j, a)]

TransFields == <<<<"type", "">>, <<"subtype", "">>, <<"dur", "0">>,
                 <<"startProgress", "0">>, <<"endProgress", "0">>,
                 <<"direction", "forward">>, <<"fadeColor", "">>,
                 <<"horzRepeat", "0">>, <<"vertRepeat", "0">>,
                 <<"borderWidth", "0">>, <<"borderColor", "">>>>
Trans(j) ==
  "{" \o FoldLeft(LAMBDA acc, f :
             acc \o (IF acc = "" THEN "" ELSE ",") \o f[1] \o "='"
             \o (IF Has(j, f[1]) THEN At(j, f[1]) ELSE f[2]) \o "'",
             "", TransFields) \o "}"

DescOk(j) ==
  /\ Has(j, "region") => ById({"region"}, At(j, "region")) # {}
  /\ \A a \in {"transIn", "transOut"} :
       Has(j, a) => ById({"transition"}, At(j, a)) # {}
The(S) == CHOOSE x \in S : TRUE
Over(f, g) == [a \in DOMAIN f \cup DOMAIN g |->
                IF a \in DOMAIN g THEN g[a] ELSE f[a]]
DescAttrs(j) ==
  LET own == [a \in (DOMAIN V[j].a) \ {"id", "region"} |->
               IF a \in {"transIn", "transOut"}
               THEN Trans(The(ById({"transition"}, At(j, a))))
               ELSE At(j, a)]
      par == FoldLeft(LAMBDA f, p : Over(f, [a \in {At(p, "name")} |->
                                              At(p, "value")]),
                      own, KidsT(j, "descriptorParam"))
  IN IF Has(j, "region")
     THEN Over(par, RegionAttrs(The(ById({"region"}, At(j, "region")))))
     ELSE par

-----------------------------------------------------------------------------
(* Objects. *)

Compos == {"body", "context", "switch"}
SettingsTypes == {"application/x-ginga-settings", "application/x-ncl-settings"}
Kind(j) == IF Has(j, "refer") THEN "ref"
           ELSE IF At(j, "type") \in SettingsTypes THEN "set" ELSE "new"
MediaOk(j) ==
  /\ ~(Has(j, "refer") /\ (Has(j, "type") \/ Has(j, "src")))
  /\ Has(j, "refer") =>
       LET t == ById({"media"}, At(j, "refer"))
       IN t # {} /\ ~Has(The(t), "refer")
  /\ Has(j, "descriptor") =>
       ById({"descriptor"}, At(j, "descriptor")) # {}
AreaOk(j) ==
  IF At(j, "label") # "" THEN ~Has(j, "begin") /\ ~Has(j, "end")
  ELSE \A a \in {"begin", "end"} :
         Has(j, a) => TimeOf(At(j, a)).k # "bad"

\* The object an element is, or stands for.
RECURSIVE Obj(_)
Obj(j) == CASE Tag(j) \in {"ncl", "body"} -> "__root__"
            [] Tag(j) \in {"context", "switch"} -> Id(j)
            [] Tag(j) = "media" ->
                 (CASE Kind(j) = "new" -> Id(j)
                    [] Kind(j) = "set" -> "__settings__"
                    [] OTHER -> Obj(The(ById({"media"}, At(j, "refer")))))

Owners == All("context") \cup All("switch") \cup All("media")

Els(es, t) == FlattenSeq([k \in 1 .. Len(es) |-> KidsT(es[k], t)])
DescsOf(es) ==
  LET ms == SelectSeq(es, LAMBDA j : Tag(j) = "media" /\ Has(j, "descriptor"))
  IN [k \in 1 .. Len(ms) |->
       DescAttrs(The(ById({"descriptor"}, At(ms[k], "descriptor"))))]

\* Objects by name: type, parent, other names and where they are known, the
\* elements that describe the object, and what these say of it.
Objects ==
  LET objOf == TLCEval([j \in Owners \cup All("body") |-> Obj(j)])
      els(x) == Ordered({j \in DOMAIN objOf : objOf[j] = x})
      rec(x, ty, par, al) ==
        LET es == TLCEval(els(x))
            ds == TLCEval(DescsOf(es))
            ps == Els(es, "property")
            pn == {At(ps[k], "name") : k \in DOMAIN ps}
                  \cup (IF ty = "settings" THEN {"service.currentFocus"}
                        ELSE {})
        IN [ty |-> ty, par |-> par, al |-> al, es |-> es, ds |-> ds,
            pnames |-> pn,
            attrs |-> pn \cup UNION {DOMAIN ds[k] : k \in DOMAIN ds},
            areas |-> {Id(j) : j \in Range(Els(es, "area"))}]
      alias(x) == {<<Id(j), Obj(Up(j))>> :
                     j \in {j \in All("media") : Kind(j) # "new"
                                                 /\ objOf[j] = x}}
      own == {j \in Owners : Tag(j) # "media" \/ Kind(j) = "new"}
  IN [x \in {"__root__", "__settings__"} \cup {Id(j) : j \in own} |->
       IF x = "__root__"
       THEN rec(x, "ctx", "",
                {<<Id(j), "">> : j \in {j \in All("ncl") \cup All("body") :
                                          Has(j, "id")}})
       ELSE IF x = "__settings__"
       THEN rec(x, "settings", "__root__", alias(x))
       ELSE LET j == X.ids[x]
            IN rec(x, IF Tag(j) = "context" THEN "ctx" ELSE Tag(j),
                   objOf[Up(j)], alias(x))]

-----------------------------------------------------------------------------
(* Results: an event as [o, ty, id].  "?" marks what is not specified and    *)
(* "!" what is wrong.                                                       *)

Ev(o, ty, id) == [o |-> o, ty |-> ty, id |-> id]
Open == Ev("?", "", "")
Bad == Ev("!", "", "")

O(x) == X.obj[x]
Names == DOMAIN X.obj

\* Names with a meaning beyond their composition.
Wide == {Id(j) : j \in {j \in All("media") : Kind(j) # "new"}}
        \cup {At(j, "refer") : j \in {j \in All("media") : Kind(j) = "ref"}}
        \cup {"__root__", "__settings__"}

Component(x, c) ==
  IF c \in {"__root__", "__settings__"} THEN "?"
  ELSE IF c = x \/ (x = "__root__" /\ \E a \in O(x).al : a[1] = c)
       THEN x
  ELSE IF c \in Names /\ O(c).par = x THEN c
  ELSE IF \E o \in Names : <<c, x>> \in O(o).al
       THEN CHOOSE o \in Names : <<c, x>> \in O(o).al
  ELSE IF c \in Wide THEN "?" ELSE "!"

Lambda(o) == Ev(o, "p", "@lambda")
RECURSIVE Interface(_, _)
Interface(x, j) ==
  LET o == Component(x, At(j, IF Tag(j) = "bindRule" THEN "constituent"
                                 ELSE "component"))
      f == At(j, "interface")
      prop == IF f \in O(o).attrs THEN Ev(o, "a", f) ELSE Bad
  IN IF o = "?" THEN Open
     ELSE IF o = "!" THEN Bad
     ELSE IF ~Has(j, "interface") THEN Lambda(o)
     ELSE LET ty == O(o).ty
          IN CASE ty \in {"media", "settings"} ->
                    (IF f \in O(o).areas THEN Ev(o, "p", f) ELSE prop)
               [] ty = "ctx" ->
                    (IF o = x THEN prop
                     ELSE LET ps == {p \in ById({"port"}, f) :
                                       Obj(Up(p)) = o}
                          IN IF ps = {} THEN prop
                             ELSE Interface(o, The(ps)))
               [] ty = "switch" ->
                    (IF \E s \in ById({"switchPort"}, f) : Obj(Up(s)) = o
                     THEN IF o = x THEN Open ELSE Ev(o, "p", f)
                     ELSE Bad)

\* Properties: those of the elements (the last non-empty value), then those
\* of the descriptors where there is none of that name (the first).
FileUri(s) == IF s = "" THEN "" ELSE IF Find(s, ":") > 0 THEN s
              ELSE IF Ch(s, 1) = "/" THEN "file://" \o s
              ELSE "@/" \o Join(Dir(D.main), s)
PropVal(o, n) ==
  IF n \in O(o).pnames
  THEN FoldLeft(LAMBDA v, j : IF At(j, "name") = n /\ At(j, "value") # ""
                              THEN At(j, "value") ELSE v,
                "", Els(O(o).es, "property"))
  ELSE SelectSeq(O(o).ds, LAMBDA d : n \in DOMAIN d)[1][n]
Own(o) == The({j \in Range(O(o).es) : Kind(j) = "new"})
Props ==
  LET prop(o, n, v) == IF v = "" THEN {} ELSE {[o |-> o, n |-> n, v |-> v]}
  IN UNION {{[o |-> o, n |-> n, v |-> PropVal(o, n)] : n \in O(o).attrs} :
              o \in Names}
     \cup UNION {prop(o, "uri", FileUri(At(Own(o), "src")))
                 \cup prop(o, "type", At(Own(o), "type")) :
                   o \in {o \in Names : O(o).ty = "media"}}
     \cup prop("__settings__", "type", "application/x-ginga-settings")

Once(q) == FoldLeft(LAMBDA acc, e : IF e \in Range(acc) THEN acc
                                    ELSE Append(acc, e), <<>>, q)
Ports(x) == LET ps == Els(O(x).es, "port")
            IN Once([k \in 1 .. Len(ps) |-> Interface(x, ps[k])])

SwEl(x) == O(x).es[1]
SPorts(x) ==
  {[id |-> Id(s), evs |-> LET ms == KidsT(s, "mapping")
                          IN [k \in 1 .. Len(ms) |->
                               Interface(x, ms[k])]] :
     s \in Range(KidsT(SwEl(x), "switchPort"))}
RulesOf(x) ==
  LET bs == KidsT(SwEl(x), "bindRule")
      ds == KidsT(SwEl(x), "defaultComponent")
      pr(b) == LET r == ById({"rule", "compositeRule"}, At(b, "rule"))
               IN IF r = {} THEN [k |-> "!"] ELSE Norm(SwitchRule(The(r)))
  IN [k \in 1 .. Len(bs) |->
       [o |-> Component(x, At(bs[k], "constituent")), p |-> pr(bs[k])]]
     \o [k \in 1 .. Len(ds) |->
          [o |-> Component(x, At(ds[k], "component")),
           p |-> [k |-> "true"]]]

-----------------------------------------------------------------------------
(* Links. *)

\* Parameters: the last of each name.
ParamsOf(js) == FoldLeft(LAMBDA f, p : Over(f, [a \in {At(p, "name")} |->
                                                 At(p, "value")]), <<>>, js)
FullId(e) == IF e.ty = "p"
             THEN e.o \o (IF e.id = "@lambda" THEN "" ELSE "@") \o e.id
             ELSE e.o \o "." \o e.id

Value(ref, bp, lp, gh) ==
  IF ~IsRef(ref) THEN ref
  ELSE LET n == Rest(ref)
           v == IF n \in DOMAIN bp THEN bp[n]
                ELSE IF n \in DOMAIN lp THEN lp[n] ELSE ""
       IN IF IsRef(v) /\ Rest(v) \in DOMAIN gh THEN gh[Rest(v)] ELSE v

RECURSIVE Subst(_, _)
Subst(p, f) ==
  LET s(x) == IF IsRef(x) /\ Rest(x) \in DOMAIN f THEN f[Rest(x)] ELSE x
  IN IF p.k = "atom" THEN [p EXCEPT !.l = s(p.l), !.r = s(p.r)]
     ELSE IF "c" \in DOMAIN p
     THEN [p EXCEPT !.c = [x \in 1 .. Len(p.c) |-> Subst(p.c[x], f)]]
     ELSE p

LinkOf(x, l) ==
  LET cs == ById({"causalConnector"}, At(l, "xconnector"))
      c == The(cs)
      roles == TLCEval(Roles(c))
      tnames == TLCEval(Tests(c))
      binds == KidsT(l, "bind")
      lp == ParamsOf(KidsT(l, "linkParam"))
      evs == TLCEval([k \in 1 .. Len(binds) |-> Interface(x, binds[k])])
      \* The role a bind binds: the first one of that name (0: none).
      role == TLCEval([k \in 1 .. Len(binds) |->
                LET m == SelectInSeq(roles, LAMBDA r :
                           At(r, "role") = At(binds[k], "role"))
                IN IF m = 0 THEN 0 ELSE roles[m]])
      nums == [k \in 1 .. Len(binds) |-> k]
      bname(k) == At(binds[k], "role")
      bound == SelectSeq(nums, LAMBDA k : role[k] # 0)
      tests == SelectSeq(nums, LAMBDA k : role[k] = 0 /\ bname(k) \in tnames)
      ghosts == SelectSeq(nums, LAMBDA k : role[k] = 0
                                          /\ bname(k) \notin tnames)
      matched == /\ Range(roles) \subseteq Range(role)
                 /\ tnames \subseteq {bname(k) : k \in Range(tests)}
      tab(ks) == FoldLeft(LAMBDA f, k :
                   Over(f, [a \in {bname(k)} |-> "$" \o FullId(evs[k])]),
                   <<>>, ks)
      ghostTab == TLCEval(tab(ghosts))
      testTab == TLCEval(FoldLeft(LAMBDA f, k :
                   Over(ParamsOf(KidsT(binds[k], "bindParam")), f),
                   tab(tests), tests))
      one(k) ==
        LET r == role[k]
            ty == RoleTy(r)[1]
            e == evs[k]
            bp == ParamsOf(KidsT(binds[k], "bindParam"))
            val(a) == IF Has(r, a) THEN Value(At(r, a), bp, lp, ghostTab)
                      ELSE ""
            ev == CASE ty \in {"p", "a"} ->
                         (IF e.ty = ty THEN e ELSE Bad)
                    [] ty = "s" ->
                         (IF e = Lambda(e.o) THEN Ev(e.o, "s", val("key"))
                          ELSE Bad)
                    [] ty = "l" -> Ev(e.o, "l", e.id)
        IN [ev |-> ev, r |-> r, tr |-> RoleTy(r)[2],
            v |-> IF ty = "a" THEN val("value")
                  ELSE IF ty = "s" THEN val("key") ELSE "",
            du |-> IF IsCond(r) THEN "" ELSE val("duration"),
            dl |-> IF IsCond(r) THEN "" ELSE val("delay")]
      all == TLCEval([m \in 1 .. Len(bound) |-> one(bound[m])])
      conds == SelectSeq(all, LAMBDA a : IsCond(a.r))
      acts == SelectSeq(all, LAMBDA a : ~IsCond(a.r))
  IN IF cs = {} \/ ~matched THEN [st |-> "!"]
     ELSE IF Bad \in Range(evs) THEN [st |-> "!"]
     ELSE IF Open \in Range(evs) THEN [st |-> "?"]
     ELSE IF \E k \in DOMAIN all : all[k].ev = Bad THEN [st |-> "!"]
     ELSE [st |-> "ok",
           c |-> [k \in 1 .. Len(conds) |->
                   [e |-> conds[k].ev, t |-> conds[k].tr,
                    p |-> NormGuard(Subst(Guard(conds[k].r), testTab))]],
           a |-> [k \in 1 .. Len(acts) |->
                   [e |-> acts[k].ev, t |-> acts[k].tr, v |-> acts[k].v,
                    du |-> acts[k].du, dl |-> acts[k].dl]]]

Links(x) == LET ls == Els(O(x).es, "link")
            IN [k \in 1 .. Len(ls) |-> LinkOf(x, ls[k])]

-----------------------------------------------------------------------------
(* The whole. *)

ElementErrors ==
  UNION {{j \in All("causalConnector") : ~ConnOk(j)},
         {j \in All("simpleCondition") \cup All("simpleAction") : ~RoleOk(j)},
         {j \in All("compoundStatement") \cup All("assessmentStatement") :
            ~StmtOk(j)},
         {j \in All("rule") \cup All("compositeRule") : ~RuleOk(j)},
         {j \in All("descriptor") : ~DescOk(j)},
         {j \in All("media") : ~MediaOk(j)},
         {j \in All("area") : ~AreaOk(j)},
         All("font")}

\* Where nothing is claimed: numbers in unusual notations, URIs with
\* characters that have a meaning, internal names.
Unspecified ==
  \/ \E j \in All("region") : RegionOdd(j)
  \/ \E j \in All("area") : \E a \in {"begin", "end"} :
       Has(j, a) /\ TimeOf(At(j, a)).k = "odd"
  \/ \E j \in All("descriptorParam") :
       At(j, "name") \in {"id", "region", "transIn", "transOut"}
  \/ \E j \in All("property") : At(j, "name") \in {"uri", "type"}
  \/ \E j \in All("media") :
       ~(Chars(At(j, "src")) \subseteq Alnum \cup Chars("._/-:"))
  \/ Cardinality(All("body")) > 1 \/ All("body") = {}

Result ==
  LET ctxs == {o \in Names : O(o).ty = "ctx"}
      sws == {o \in Names : O(o).ty = "switch"}
      links == TLCEval([x \in ctxs |-> Links(x)])
      ports == TLCEval([x \in ctxs |-> Ports(x)])
      sports == TLCEval([x \in sws |-> SPorts(x)])
      rules == TLCEval([x \in sws |-> RulesOf(x)])
      stat == UNION {{links[x][k].st : k \in DOMAIN links[x]} : x \in ctxs}
              \cup UNION {{e.o : e \in Range(ports[x])} : x \in ctxs}
              \cup UNION {UNION {{e.o : e \in Range(s.evs)} :
                                   s \in sports[x]} : x \in sws}
              \cup UNION {{r.o : r \in Range(rules[x])} : x \in sws}
              \cup UNION {{r.p.k : r \in Range(rules[x])} : x \in sws}
      verdict == IF "!" \in stat THEN "err"
                 ELSE IF "?" \in stat \/ Unspecified THEN "any" ELSE "ok"
      used == UNION {UNION {{c.e : c \in Range(l.c)}
                            \cup {a.e : a \in Range(l.a)} :
                              l \in Range(links[x])} : x \in ctxs}
      plain(e) == [o |-> e.o, ty |-> e.ty, id |-> e.id, l |-> "", b |-> 0,
                   n |-> -1, k |-> IF e.ty = "s" THEN e.id ELSE ""]
      tm(j, a, d) == IF Has(j, a) THEN TimeOf(At(j, a)).v ELSE d
      area(o, j) == IF At(j, "label") # ""
                    THEN [plain(Ev(o, "p", Id(j))) EXCEPT !.l = At(j, "label")]
                    ELSE [plain(Ev(o, "p", Id(j))) EXCEPT
                           !.b = tm(j, "begin", 0), !.n = tm(j, "end", -1)]
      events ==
        {plain(Lambda(o)) : o \in Names}
        \cup UNION {{plain(Ev(o, "a", n)) : n \in O(o).attrs} : o \in Names}
        \cup UNION {{area(o, j) : j \in Range(Els(O(o).es, "area"))} :
                      o \in Names}
        \cup UNION {{[plain(Ev(x, "p", s.id)) EXCEPT !.l = s.id] :
                       s \in sports[x]} : x \in sws}
        \cup {plain(e) : e \in {e \in used : e.ty \in {"s", "l"}}}
  IN IF verdict # "ok" THEN [v |-> verdict]
     ELSE [v |-> "ok",
           objs |-> {[id |-> o, ty |-> O(o).ty, par |-> O(o).par,
                      al |-> O(o).al] : o \in Names},
           evs |-> events, props |-> Props, ports |-> ports,
           links |-> [x \in ctxs |->
                       [k \in DOMAIN links[x] |->
                         [c |-> links[x][k].c, a |-> links[x][k].a]]],
           rules |-> rules, sports |-> sports]

-----------------------------------------------------------------------------
(* Against the real parser. *)

SetOf(s) == {s[k] : k \in DOMAIN s}
Obs ==
  LET o == D.obs
  IN [objs |-> {[id |-> x.id, ty |-> x.ty, par |-> x.par,
                 al |-> SetOf(x.al)] : x \in SetOf(o.objs)},
      evs |-> SetOf(o.evs), props |-> SetOf(o.props), ports |-> o.ports,
      links |-> [x \in DOMAIN o.links |->
                  [k \in DOMAIN o.links[x] |->
                    [c |-> [m \in DOMAIN o.links[x][k].c |->
                             [o.links[x][k].c[m] EXCEPT !.p = NormGuard(@)]],
                     a |-> o.links[x][k].a]]],
      rules |-> [x \in DOMAIN o.rules |->
                  [k \in DOMAIN o.rules[x] |->
                    [o.rules[x][k] EXCEPT !.p = Norm(@)]]],
      sports |-> [x \in DOMAIN o.sports |-> SetOf(o.sports[x])]]

Fields2 == {"objs", "evs", "props", "ports", "links", "rules", "sports"}
Compare(r) ==
  IF D.obs.st = "crash" THEN [what |-> "crash", exp |-> r.v]
  ELSE IF r.v = "any" THEN [what |-> "any"]
  ELSE IF r.v # D.obs.st THEN [what |-> "verdict", exp |-> r.v]
  ELSE IF r.v = "err" THEN [what |-> "same", exp |-> r.v]
  ELSE LET o == TLCEval(Obs)
           df == {f \in Fields2 : o[f] # r[f]}
           dup == {f \in {"objs", "evs", "props"} :
                     Len(D.obs[f]) # Cardinality(o[f])}
       IN IF df = {} /\ dup = {} THEN [what |-> "same", exp |-> r.v]
          ELSE [what |-> "differs", exp |-> [f \in df |-> r[f]],
                dup |-> dup]

Report(r) == PrintT(ToJson([kind |-> r.what, tr |-> i,
                            x |-> IF "exp" \in DOMAIN r THEN r.exp ELSE ""]))

Init == /\ i \in 1 .. Len(Docs) /\ ph = "parse" /\ V = <<>> /\ X = [no |-> 0]

Collect == /\ ph = "parse"
           /\ IF D.root = 0 THEN V' = <<>> /\ ph' = "reject"
              ELSE /\ V' = Full(TLCEval(Visit(D.root, 0, "", <<>>, <<>>)))
                   /\ ph' = "syntax"
           /\ UNCHANGED <<i, X>>

Syntax == /\ ph = "syntax"
          /\ IF (\A j \in 1 .. N : SyntaxOk(j)) /\ UniqueIds
             THEN ph' = "elements" /\ X' = Tables
             ELSE ph' = "reject" /\ UNCHANGED X
          /\ UNCHANGED <<i, V>>

Elements == /\ ph = "elements"
            /\ ph' = IF ElementErrors = {} THEN "objects" ELSE "reject"
            /\ UNCHANGED <<i, V, X>>

Resolve == /\ ph = "objects" /\ ph' = "build"
           /\ X' = [all |-> X.all, ids |-> X.ids, obj |-> Objects]
           /\ UNCHANGED <<i, V>>

Build == /\ ph = "build" /\ ph' = "done"
         /\ Report(Compare(TLCEval(Result)))
         /\ UNCHANGED <<i, V, X>>

Reject == /\ ph = "reject" /\ ph' = "done"
          /\ Report(Compare([v |-> "err"]))
          /\ UNCHANGED <<i, V, X>>

Next == Collect \/ Syntax \/ Elements \/ Resolve \/ Build \/ Reject
Spec == Init /\ [][Next]_vars
View == <<i, ph>>
=============================================================================
