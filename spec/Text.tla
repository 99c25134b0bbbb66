-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Strings, numbers and times as documents write them.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, k) == SubSeq(s, k, k)
Chars(s) == {Ch(s, k) : k \in 1 .. Len(s)}
Rest(s) == SubSeq(s, 2, Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Digits == Chars("0123456789")
Alnum == Digits \cup Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
NameChars == Alnum \cup Chars("-_:.#")
IsRef(s) == Len(s) > 0 /\ Ch(s, 1) = "$"
Lower(c) == IF \E k \in 1 .. 26 : Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", k) = c
            THEN LET k == CHOOSE k \in 1 .. 26 :
                            Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", k) = c
                 IN Ch("abcdefghijklmnopqrstuvwxyz", k)
            ELSE c
RECURSIVE LowerS(_)
LowerS(s) == IF Len(s) = 0 THEN "" ELSE Lower(Ch(s, 1)) \o LowerS(Rest(s))
Dig(c) == (CHOOSE k \in 1 .. 10 : Ch("0123456789", k) = c) - 1

\* Index of the first occurrence of a character, or 0.
Find(s, c) == IF \E k \in 1 .. Len(s) : Ch(s, k) = c
              THEN CHOOSE k \in 1 .. Len(s) :
                     Ch(s, k) = c /\ \A j \in 1 .. k - 1 : Ch(s, j) # c
              ELSE 0
RECURSIVE NatOf(_)
NatOf(s) == IF Len(s) = 0 THEN 0
            ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + Dig(Ch(s, Len(s)))
\* Natural number with at most three decimals, in thousandths; -1 if not one.
Milli(s) ==
  LET p == Find(s, ".")
      a == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
      b == IF p = 0 THEN "" ELSE SubSeq(s, p + 1, Len(s))
  IN IF Chars(a) \subseteq Digits /\ Chars(b) \subseteq Digits
        /\ Len(a) \in 1 .. 5 /\ Len(b) <= 3
     THEN 1000 * NatOf(a) + NatOf(SubSeq(b \o "000", 1, 3))
     ELSE -1
RECURSIVE Chomp(_)
Chomp(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = " "
            THEN Chomp(SubSeq(s, 1, Len(s) - 1)) ELSE s
Fields(s) == LET p == Find(s, ":")
                 r == SubSeq(s, p + 1, Len(s))
                 q == Find(r, ":")
             IN IF p = 0 THEN <<s>>
                ELSE IF q = 0 THEN <<SubSeq(s, 1, p - 1), r>>
                ELSE <<SubSeq(s, 1, p - 1), SubSeq(r, 1, q - 1),
                       SubSeq(r, q + 1, Len(r))>>

\* Times in ms; k = "odd" for strings on which nothing is claimed.
TimeOf(s) ==
  LET t == Chomp(s)
      n == Len(t)
      u == IF n > 0 /\ Ch(t, n) = "s" THEN SubSeq(t, 1, n - 1) ELSE t
      f == Fields(t)
  IN IF u = "" THEN [k |-> "ok", v |-> 0]
     ELSE IF Milli(u) >= 0 THEN [k |-> "ok", v |-> Milli(u)]
     ELSE IF Len(f) = 3 /\ \A k \in 1 .. 3 : Milli(f[k]) >= 0
          THEN IF Milli(f[1]) <= 100000 /\ Milli(f[1]) % 1000 = 0
                  /\ Milli(f[2]) % 1000 = 0
               THEN [k |-> "ok", v |-> 3600 * Milli(f[1]) + 60 * Milli(f[2])
                                       + Milli(f[3])]
               ELSE [k |-> "odd", v |-> 0]
     ELSE IF Ch(t, 1) \in Alnum \ (Digits \cup {"i", "I", "n", "N"})
          THEN [k |-> "bad", v |-> 0]
     ELSE IF Milli(f[1]) >= 0 /\ Len(f) = 2 /\ Milli(f[2]) >= 0
          THEN [k |-> "bad", v |-> 0]
     ELSE [k |-> "odd", v |-> 0]
=============================================================================
