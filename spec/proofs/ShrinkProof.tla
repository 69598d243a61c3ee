----------------------------- MODULE ShrinkProof ----------------------------
(***************************************************************************)
(* IntervalShrinker::shrink for every root and every interval: a           *)
(* machine-checked proof (tlapm) of what MCShrink checks for some.         *)
(*                                                                         *)
(* The root is any real number r, given by its dyadic floors               *)
(* Fl(k) = floor(r * 2^k) and Ex(k), whether r * 2^k is an integer.        *)
(* Comparing a dyadic m / 2^k with r is what counting sign changes does.   *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS Fl(_), Ex(_)
ASSUME FlType == \A k \in Nat : Fl(k) \in Int /\ Ex(k) \in BOOLEAN
ASSUME FlNext == \A k \in Nat : \/ Fl(k + 1) = 2 * Fl(k)
                                \/ Fl(k + 1) = 2 * Fl(k) + 1 /\ ~Ex(k)
ASSUME ExNext == \A k \in Nat : Ex(k) => Ex(k + 1) /\ Fl(k + 1) = 2 * Fl(k)
IsRoot(m, k) == Ex(k) /\ m = Fl(k)
Below(m, k) == m <= Fl(k)                               \* m / 2^k <= r
Above(m, k) == m > Fl(k) \/ IsRoot(m, k)                \* m / 2^k >= r
VARIABLES lo, hi, k, pc, olo, ohi, ok
vars == <<lo, hi, k, pc, olo, ohi, ok>>
Init == /\ k \in Nat /\ lo \in Int /\ hi \in Int /\ Below(lo, k) /\ Above(hi, k)
        /\ pc = "idle" /\ olo = lo /\ ohi = hi /\ ok = k
Call == /\ pc = "idle" /\ lo # hi /\ olo' = lo /\ ohi' = hi /\ ok' = k
        /\ pc' = "bisect"
        /\ IF hi - lo < 16 THEN lo' = 2 * lo /\ hi' = 2 * hi /\ k' = k + 1 ELSE UNCHANGED <<lo, hi, k>>
\* rounding towards zero
Half(z) == IF z >= 0 THEN z \div 2 ELSE -((-z) \div 2)
Bisect == /\ pc = "bisect" /\ pc' = "idle" /\ UNCHANGED <<k, olo, ohi, ok>>
          /\ LET m == Half(lo + hi) IN
             IF IsRoot(lo, k) THEN hi' = lo /\ UNCHANGED lo
             ELSE IF IsRoot(hi, k) THEN lo' = hi /\ UNCHANGED hi
             ELSE IF IsRoot(m, k) THEN lo' = m /\ hi' = m
             ELSE IF Below(m, k) THEN lo' = m /\ UNCHANGED hi
             ELSE hi' = m /\ UNCHANGED lo
Next == Call \/ Bisect
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Contains == Below(lo, k) /\ Above(hi, k)
\* the interval before the call, at the present precision
OLo == IF k = ok THEN olo ELSE 2 * olo
OHi == IF k = ok THEN ohi ELSE 2 * ohi
Inv == /\ lo \in Int /\ hi \in Int /\ k \in Nat /\ olo \in Int /\ ohi \in Int /\ ok \in Nat
       /\ pc \in {"idle", "bisect"}
       /\ Contains
       /\ k = ok \/ k = ok + 1
       /\ OLo <= lo /\ hi <= OHi
       /\ pc = "bisect" => lo = OLo /\ hi = OHi /\ hi - lo >= 2
\* at the end of a call the interval is exact or at most about half as wide as before: a unit more than half, when that is 8 units or more
Narrow == 2 * (hi - lo) <= OHi - OLo + 2
\* never out of order
Ordered == lo <= hi

LEMMA HalfIn == \A a, b \in Int : b - a >= 2 => /\ Half(a + b) \in Int /\ a < Half(a + b) /\ Half(a + b) < b
                                                /\ 2 * Half(a + b) \in (a + b - 1)..(a + b + 1)
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int, b - a >= 2
             PROVE /\ Half(a + b) \in Int /\ a < Half(a + b) /\ Half(a + b) < b /\ 2 * Half(a + b) \in (a + b - 1)..(a + b + 1)
    OBVIOUS
<1>1. CASE a + b >= 0 BY <1>1 DEF Half
<1>2. CASE a + b < 0
  <2>1. \A z \in Nat : (z \div 2) \in Nat /\ 2 * (z \div 2) <= z /\ z <= 2 * (z \div 2) + 1 OBVIOUS
  <2> DEFINE z == -(a + b)
             h == z \div 2
  <2>2. z \in Nat /\ a + b = -z BY <1>2
  <2>3. Half(a + b) = -h BY <1>2 DEF Half
  <2>4. h \in Nat /\ 2 * h <= z /\ z <= 2 * h + 1 BY <2>1, <2>2
  <2> HIDE DEF h, z
  <2> QED BY <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2

LEMMA IsOrdered == \A a, b \in Int : \A j \in Nat : Below(a, j) /\ Above(b, j) => a <= b
BY FlType DEF Below, Above, IsRoot

LEMMA Scale == \A a \in Int : \A j \in Nat : /\ (Below(a, j) => Below(2 * a, j + 1))
                                            /\ (Above(a, j) => Above(2 * a, j + 1))
<1> SUFFICES ASSUME NEW a \in Int, NEW j \in Nat PROVE (Below(a, j) => Below(2 * a, j + 1)) /\ (Above(a, j) => Above(2 * a, j + 1)) OBVIOUS
<1>1. Fl(j) \in Int /\ Fl(j + 1) \in Int BY FlType
<1>2. Fl(j + 1) = 2 * Fl(j) \/ Fl(j + 1) = 2 * Fl(j) + 1 BY FlNext
<1>3. Ex(j) => Ex(j + 1) /\ Fl(j + 1) = 2 * Fl(j) BY ExNext
<1> QED BY <1>1, <1>2, <1>3 DEF Below, Above, IsRoot

LEMMA InitInv == Init => Inv
BY DEF Init, Inv, Contains, OLo, OHi

LEMMA StepInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv, Contains, OLo, OHi, Below, Above, IsRoot
<1>2. CASE Call
  <2>0. lo <= hi BY IsOrdered DEF Inv, Contains
  <2>1. CASE hi - lo < 16
    <3>1. lo' = 2 * lo /\ hi' = 2 * hi /\ k' = k + 1 /\ olo' = lo /\ ohi' = hi /\ ok' = k /\ pc' = "bisect" /\ lo # hi BY <1>2, <2>1 DEF Call
    <3>2. Below(lo', k') /\ Above(hi', k') BY <3>1, Scale DEF Inv, Contains
    <3>3. OLo' = lo' /\ OHi' = hi' BY <3>1 DEF OLo, OHi, Inv
    <3> QED BY <2>0, <3>1, <3>2, <3>3 DEF Inv, Contains
  <2>2. CASE ~(hi - lo < 16)
    <3>1. lo' = lo /\ hi' = hi /\ k' = k /\ olo' = lo /\ ohi' = hi /\ ok' = k /\ pc' = "bisect" BY <1>2, <2>2 DEF Call
    <3>2. OLo' = lo' /\ OHi' = hi' BY <3>1 DEF OLo, OHi, Inv
    <3> QED BY <2>2, <3>1, <3>2 DEF Inv, Contains, Below, Above, IsRoot
  <2> QED BY <2>1, <2>2
<1>3. CASE Bisect
  <2> DEFINE m == Half(lo + hi)
  <2>1. m \in Int /\ lo < m /\ m < hi BY <1>3, HalfIn DEF Bisect, Inv
  <2>2. k' = k /\ olo' = olo /\ ohi' = ohi /\ ok' = ok /\ pc' = "idle" BY <1>3 DEF Bisect
  <2>3. OLo' = OLo /\ OHi' = OHi BY <2>2 DEF OLo, OHi
  <2>4. Fl(k) \in Int BY FlType DEF Inv
  <2>a. OLo \in Int /\ OHi \in Int /\ lo \in Int /\ hi \in Int /\ lo = OLo /\ hi = OHi BY <1>3 DEF Bisect, Inv, OLo, OHi
  <2>b. ASSUME lo' \in Int, hi' \in Int, lo <= lo', hi' <= hi, Below(lo', k), Above(hi', k) PROVE Inv'
    <3>1. Below(lo', k') /\ Above(hi', k') BY <2>b, <2>2
    <3>2. k' \in Nat /\ (k' = ok' \/ k' = ok' + 1) /\ olo' \in Int /\ ohi' \in Int /\ ok' \in Nat BY <2>2 DEF Inv
    <3>3. OLo' <= lo' /\ hi' <= OHi' BY <2>a, <2>b, <2>3
    <3> QED BY <2>b, <2>2, <3>1, <3>2, <3>3 DEF Inv, Contains
  <2>c. Below(lo, k) /\ Above(hi, k) BY DEF Inv, Contains
  <2> HIDE DEF m
  <2>5. CASE IsRoot(lo, k)
    <3>1. lo' = lo /\ hi' = lo BY <1>3, <2>5 DEF Bisect, m
    <3> QED BY <2>1, <2>4, <2>5, <2>a, <2>b, <2>c, <3>1 DEF Below, Above, IsRoot
  <2>6. CASE ~IsRoot(lo, k) /\ IsRoot(hi, k)
    <3>1. lo' = hi /\ hi' = hi BY <1>3, <2>6 DEF Bisect, m
    <3> QED BY <2>1, <2>4, <2>6, <2>a, <2>b, <2>c, <3>1 DEF Below, Above, IsRoot
  <2>7. CASE ~IsRoot(lo, k) /\ ~IsRoot(hi, k) /\ IsRoot(m, k)
    <3>1. lo' = m /\ hi' = m BY <1>3, <2>7 DEF Bisect, m
    <3> QED BY <2>1, <2>4, <2>7, <2>a, <2>b, <2>c, <3>1 DEF Below, Above, IsRoot
  <2>8. CASE ~IsRoot(lo, k) /\ ~IsRoot(hi, k) /\ ~IsRoot(m, k) /\ Below(m, k)
    <3>1. lo' = m /\ hi' = hi BY <1>3, <2>8 DEF Bisect, m
    <3> QED BY <2>1, <2>4, <2>8, <2>a, <2>b, <2>c, <3>1
  <2>9. CASE ~IsRoot(lo, k) /\ ~IsRoot(hi, k) /\ ~IsRoot(m, k) /\ ~Below(m, k)
    <3>1. lo' = lo /\ hi' = m BY <1>3, <2>9 DEF Bisect, m
    <3>2. m > Fl(k) BY <2>1, <2>4, <2>9 DEF Below
    <3> QED BY <2>1, <2>4, <2>a, <2>b, <2>c, <3>1, <3>2 DEF Above
  <2> QED BY <2>5, <2>6, <2>7, <2>8, <2>9
<1> QED BY <1>1, <1>2, <1>3 DEF Next

\* each call narrows the interval
LEMMA StepNarrow == Inv /\ Bisect => Narrow'
<1> SUFFICES ASSUME Inv, Bisect PROVE Narrow' OBVIOUS
<1> DEFINE m == Half(lo + hi)
<1>1. m \in Int /\ lo < m /\ m < hi /\ 2 * m \in (lo + hi - 1)..(lo + hi + 1) BY HalfIn DEF Bisect, Inv
<1>2. OLo' = OLo /\ OHi' = OHi /\ lo = OLo /\ hi = OHi BY DEF Bisect, OLo, OHi, Inv
<1>3. \/ (lo' = lo /\ hi' = lo) \/ (lo' = hi /\ hi' = hi) \/ (lo' = m /\ hi' = m) \/ (lo' = m /\ hi' = hi) \/ (lo' = lo /\ hi' = m)
  <2>1. CASE IsRoot(lo, k) BY <2>1 DEF Bisect
  <2>2. CASE ~IsRoot(lo, k) /\ IsRoot(hi, k) BY <2>2 DEF Bisect
  <2>3. CASE ~IsRoot(lo, k) /\ ~IsRoot(hi, k) /\ IsRoot(m, k) BY <2>3 DEF Bisect
  <2>4. CASE ~IsRoot(lo, k) /\ ~IsRoot(hi, k) /\ ~IsRoot(m, k) /\ Below(m, k) BY <2>4 DEF Bisect
  <2>5. CASE ~IsRoot(lo, k) /\ ~IsRoot(hi, k) /\ ~IsRoot(m, k) /\ ~Below(m, k) BY <2>5 DEF Bisect
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5
<1>4. lo \in Int /\ hi \in Int /\ OLo \in Int /\ OHi \in Int BY <1>2 DEF Inv
<1> HIDE DEF m
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Narrow

THEOREM Safety == Spec => [](Contains /\ Ordered)
<1>1. Inv => Contains /\ Ordered BY IsOrdered DEF Inv, Contains, Ordered
<1> QED BY InitInv, StepInv, <1>1, PTL DEF Spec
=============================================================================
