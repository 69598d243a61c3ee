-------------------------------- MODULE Rat --------------------------------
(* Rational numbers <<numerator, denominator>> over BigZ, denominator > 0.  *)
(* Operators accept unreduced pairs; RNorm gives the canonical one.         *)
EXTENDS BigZ, SequencesExt, FiniteSetsExt
RNorm(q) == LET g == ZGcd(q[1], q[2])
                h == IF ZSgn(q[2]) < 0 THEN ZNeg(g) ELSE g
            IN  <<ZDiv(q[1], h), ZDiv(q[2], h)>>
IsRat(q) == Len(q) = 2 /\ IsZ(q[1]) /\ IsZ(q[2]) /\ q[2] # "0"
IsCanonRat(q) == IsRat(q) /\ ZSgn(q[2]) > 0 /\ ZGcd(q[1], q[2]) = "1"
RInt(a) == <<a, "1">>
RAdd(p, q) == <<ZAdd(ZMul(p[1], q[2]), ZMul(q[1], p[2])), ZMul(p[2], q[2])>>
RNeg(p)    == <<ZNeg(p[1]), p[2]>>
RSub(p, q) == RAdd(p, RNeg(q))
RMul(p, q) == <<ZMul(p[1], q[1]), ZMul(p[2], q[2])>>
RInv(p)    == IF ZSgn(p[1]) < 0 THEN <<ZNeg(p[2]), ZNeg(p[1])>> ELSE <<p[2], p[1]>>   \* p # 0
RDiv(p, q) == RMul(p, RInv(q))
RCmp(p, q) == ZCmp(ZMul(p[1], q[2]), ZMul(q[1], p[2]))
RLe(p, q)  == RCmp(p, q) <= 0
REq(p, q)  == RCmp(p, q) = 0
RSgn(p)    == ZSgn(p[1])
RAbs(p)    == <<ZAbs(p[1]), p[2]>>
RMin2(p, q) == IF RLe(p, q) THEN p ELSE q
RMax2(p, q) == IF RLe(p, q) THEN q ELSE p
RMinS(s) == FoldSeq(LAMBDA x, acc : RMin2(acc, x), s[1], s)
RMaxS(s) == FoldSeq(LAMBDA x, acc : RMax2(acc, x), s[1], s)
RPow(p, n) == <<ZPow(p[1], n), ZPow(p[2], n)>>             \* n >= 0
RFloor(p) == ZDiv(p[1], p[2])
RCeil(p)  == ZNeg(ZDiv(ZNeg(p[1]), p[2]))
\* floor and ceiling of 2^k * p
RFloorAt(p, k) == ZDiv(ZShl(p[1], k), p[2])
RCeilAt(p, k)  == ZNeg(ZDiv(ZNeg(ZShl(p[1], k)), p[2]))
Pow2(k) == ZShl("1", k)
RDyadic(a, k) == <<a, Pow2(k)>>
=============================================================================
