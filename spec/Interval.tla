------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* Dyadic intervals [lo/2^k, hi/2^k]: what every operation has to return.  *)
(*                                                                         *)
(* For an operation whose exact result set over the operands is the        *)
(* rational interval [L, H], Outward(L, H, k) is the smallest interval of  *)
(* precision k containing it.                                              *)
(***************************************************************************)
EXTENDS Rat, BigReal
MaxN(a, b) == IF a >= b THEN a ELSE b
IsIv(v) == IsZ(v.lo) /\ IsZ(v.hi) /\ v.k \in Nat /\ ZCmp(v.lo, v.hi) <= 0
Iv(lo, hi, k) == [lo |-> lo, hi |-> hi, k |-> k]
Lo(v) == RDyadic(v.lo, v.k)
Hi(v) == RDyadic(v.hi, v.k)
Outward(L, H, k) == Iv(RFloorAt(L, k), RCeilAt(H, k), k)

Within(v, w) == RLe(Lo(w), Lo(v)) /\ RLe(Hi(v), Hi(w))
ZeroIn(v) == ZSgn(v.lo) <= 0 /\ ZSgn(v.hi) >= 0

\* exact result sets as <<L, H>>; operands as pairs of rationals
P(v) == <<Lo(v), Hi(v)>>
SetAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
SetSub(a, b) == <<RSub(a[1], b[2]), RSub(a[2], b[1])>>
Corners(a, b) == <<RMul(a[1], b[1]), RMul(a[1], b[2]), RMul(a[2], b[1]), RMul(a[2], b[2])>>
SetMul(a, b) == <<RMinS(Corners(a, b)), RMaxS(Corners(a, b))>>
SetInv(a) == <<RInv(a[2]), RInv(a[1])>>                       \* 0 not in a
SetDiv(a, b) == SetMul(a, SetInv(b))
SetNeg(a) == <<RNeg(a[2]), RNeg(a[1])>>
HasZero(a) == RSgn(a[1]) <= 0 /\ RSgn(a[2]) >= 0
RMag(a) == RMax2(RAbs(a[1]), RAbs(a[2]))                      \* largest absolute value
RMig(a) == IF HasZero(a) THEN <<"0", "1">> ELSE RMin2(RAbs(a[1]), RAbs(a[2]))
SetAbs(a) == <<RMig(a), RMag(a)>>
\* n-th power, n >= 0
SetPow(a, n) == IF n = 0 THEN <<<<"1", "1">>, <<"1", "1">>>>
                ELSE IF n % 2 = 1 THEN <<RPow(a[1], n), RPow(a[2], n)>>
                ELSE <<RPow(RMig(a), n), RPow(RMag(a), n)>>
SetUnion(a, b) == <<RMin2(a[1], b[1]), RMax2(a[2], b[2])>>

Tight(S, k) == Outward(S[1], S[2], k)
\* enclosure of S at precision k with at most `slack` units more than needed on either side
Encloses(v, S, k, slack) ==
  /\ IsIv(v) /\ v.k = k
  /\ ZCmp(v.lo, RFloorAt(S[1], k)) <= 0 /\ ZCmp(v.hi, RCeilAt(S[2], k)) >= 0
  /\ ZCmp(ZSub(RFloorAt(S[1], k), v.lo), slack) <= 0
  /\ ZCmp(ZSub(v.hi, RCeilAt(S[2], k)), slack) <= 0

\* real functions: floor and ceiling of 2^k f
SqrtFloorAt(q, k) == ZIsqrt(ZDiv(ZShl(q[1], 2*k), q[2]))          \* floor(2^k sqrt q)
SqrtCeilAt(q, k) == LET f == SqrtFloorAt(q, k) IN
                    IF REq(RMul(q, RDyadic("1", 0)), <<ZMul(f, f), Pow2(2*k)>>) THEN f ELSE ZAdd(f, "1")
IrrCeil(f, exact) == IF exact THEN f ELSE ZAdd(f, "1")
\* below -k the exponential is less than 2^-k
ExpFloorAt(q, k) == IF ~RLe(<<ZNeg(ToString(k)), "1">>, q) THEN "0" ELSE ExpFloor(q[1], q[2], k)
ExpCeilAt(q, k) == IrrCeil(ExpFloorAt(q, k), RSgn(q) = 0)
LnFloorAt(q, k) == LnFloor(q[1], q[2], k)
LnCeilAt(q, k) == IrrCeil(LnFloorAt(q, k), q[1] = q[2])
AgmFloorAt(p, q, k) == AgmFloor(p[1], p[2], q[1], q[2], k)
\* the mean of equal arguments is that argument, with 0 it is 0, otherwise it is transcendental
AgmCeilAt(p, q, k) == IF RSgn(p) = 0 \/ RSgn(q) = 0 THEN "0" ELSE IF REq(p, q) THEN RCeilAt(p, k)
                      ELSE ZAdd(AgmFloorAt(p, q, k), "1")
\* v has precision k, contains everything between the two given exact bounds and has at most
\* `slack` units more on either side
Bounds(v, k, fl, ce, slack) ==
  /\ IsIv(v) /\ v.k = k
  /\ ZCmp(v.lo, fl) <= 0 /\ ZCmp(v.hi, ce) >= 0
  /\ ZCmp(ZSub(fl, v.lo), slack) <= 0 /\ ZCmp(ZSub(v.hi, ce), slack) <= 0
=============================================================================
