---------------------------- MODULE NearestProof ----------------------------
(***************************************************************************)
(* Division to the nearest integer (MCNearest) for all integers: machine-  *)
(* checked proof (tlapm).  q0, r0: truncated quotient and remainder.       *)
(***************************************************************************)
EXTENDS Integers, TLAPS
Abs(n) == IF n < 0 THEN -n ELSE n
Truncated(a, b, q, r) == /\ a = b * q + r /\ Abs(r) < Abs(b)
                         /\ (r > 0 => a > 0) /\ (r < 0 => a < 0)
NeedsMore(b, r) == Abs(r) > Abs(b) \div 2
Up(a, b) == (a < 0) <=> (b < 0)
Q(a, b, q, r) == IF NeedsMore(b, r) THEN IF Up(a, b) THEN q + 1 ELSE q - 1 ELSE q
R(a, b, q, r) == IF NeedsMore(b, r) THEN IF Up(a, b) THEN r - b ELSE r + b ELSE r

LEMMA Halves == \A n \in Nat : n \div 2 \in Nat /\ 2 * (n \div 2) <= n /\ n <= 2 * (n \div 2) + 1
OBVIOUS
THEOREM Identity ==
  \A a, b, q, r \in Int : Truncated(a, b, q, r) => a = b * Q(a, b, q, r) + R(a, b, q, r)
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int, NEW q \in Int, NEW r \in Int, a = b * q + r
             PROVE a = b * Q(a, b, q, r) + R(a, b, q, r) BY DEF Truncated
<1>1. b * (q + 1) = b * q + b /\ b * (q - 1) = b * q - b OBVIOUS
<1>2. CASE ~NeedsMore(b, r) BY <1>2 DEF Q, R
<1>3. CASE NeedsMore(b, r) /\ Up(a, b) BY <1>1, <1>3 DEF Q, R
<1>4. CASE NeedsMore(b, r) /\ ~Up(a, b) BY <1>1, <1>4 DEF Q, R
<1> QED BY <1>2, <1>3, <1>4
THEOREM Nearest ==
  \A a, b, q, r \in Int : Truncated(a, b, q, r) => 2 * Abs(R(a, b, q, r)) <= Abs(b)
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int, NEW q \in Int, NEW r \in Int, Truncated(a, b, q, r)
             PROVE 2 * Abs(R(a, b, q, r)) <= Abs(b) OBVIOUS
<1> DEFINE h == Abs(b) \div 2
<1>1. Abs(b) \in Nat BY DEF Abs
<1>2. h \in Nat /\ 2 * h <= Abs(b) /\ Abs(b) <= 2 * h + 1 BY <1>1, Halves
<1>3. NeedsMore(b, r) <=> Abs(r) > h BY DEF NeedsMore
<1>4. Abs(r) < Abs(b) /\ (r > 0 => a > 0) /\ (r < 0 => a < 0) BY DEF Truncated
<1> HIDE DEF h
<1>5. CASE ~NeedsMore(b, r)
  <2>1. R(a, b, q, r) = r BY <1>5 DEF R
  <2> QED BY <1>2, <1>3, <1>5, <2>1 DEF Abs
<1>6. CASE NeedsMore(b, r) /\ Up(a, b)
  <2>1. R(a, b, q, r) = r - b BY <1>6 DEF R
  <2> QED BY <1>2, <1>3, <1>4, <1>6, <2>1 DEF Abs, Up
<1>7. CASE NeedsMore(b, r) /\ ~Up(a, b)
  <2>1. R(a, b, q, r) = r + b BY <1>7 DEF R
  <2> QED BY <1>2, <1>3, <1>4, <1>7, <2>1 DEF Abs, Up
<1> QED BY <1>5, <1>6, <1>7
\* ties keep the truncated quotient
THEOREM Ties ==
  \A a, b, q, r \in Int : Truncated(a, b, q, r) /\ 2 * Abs(r) = Abs(b) => Q(a, b, q, r) = q
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int, NEW q \in Int, NEW r \in Int, 2 * Abs(r) = Abs(b) PROVE Q(a, b, q, r) = q
    OBVIOUS
<1>1. Abs(b) \in Nat /\ Abs(r) \in Nat BY DEF Abs
<1>2. (2 * Abs(r)) \div 2 = Abs(r) BY <1>1
<1> QED BY <1>1, <1>2 DEF Q, NeedsMore
=============================================================================
