----------------------------- MODULE Algebraic ------------------------------
(***************************************************************************)
(* Real algebraic numbers.                                                 *)
(*                                                                         *)
(* A number is a record [p, lo, hi, k]: the only real root of the integer  *)
(* polynomial p in the closed interval [lo, hi] / 2^k.                     *)
(*                                                                         *)
(* Whether an arithmetic relation between such numbers holds is decided    *)
(* without computing any resultant.  A relation is F(x1, .., xm) = 0 for a *)
(* polynomial F with integer coefficients; by Liouville's inequality       *)
(*    F(x) = 0   or   |F(x)| >= L(F)^(-N) * PRODUCT_j M(pj)^(-ej*N/dj)     *)
(* where dj is the degree of pj, N = d1*..*dm, ej the degree of F in xj,   *)
(* L(F) the sum of its absolute coefficients and M the Mahler measure,     *)
(* which the Euclidean norm of the coefficients bounds.  So it is enough   *)
(* to enclose F(x) in an interval narrower than that gap and to look       *)
(* whether it contains zero.  This holds for any pj of which xj is a root, *)
(* irreducible or not.                                                     *)
(***************************************************************************)
EXTENDS BigPoly, Rat

\* ---- what a number is
IvOk(v) == v.k >= 0 /\ ZCmp(v.lo, v.hi) <= 0
IsNum(v) == /\ PIsNorm(v.p) /\ PDeg(v.p) >= 1 /\ IvOk(v)
            /\ PCountClosed(v.p, v.lo, Pow2(v.k), v.hi, Pow2(v.k)) = 1
\* the canonical representation
WellFormed(v) == IsNum(v) /\ PContent(v.p) = "1" /\ ZSgn(PLc(v.p)) > 0 /\ PIrreducible(v.p)

\* floor of 2^n times the number
Root(v, n) == PRootFloor(v.p, v.lo, v.hi, v.k, n)
\* is the number the rational q
IsRatVal(v, q) == /\ PEvalH(v.p, q[1], q[2]) = "0"
                  /\ RLe(RDyadic(v.lo, v.k), q) /\ RLe(q, RDyadic(v.hi, v.k))
IsIntVal(v, m) == IsRatVal(v, RInt(m))
SgnOf(v) == IF IsIntVal(v, "0") THEN 0 ELSE IF ZSgn(Root(v, 0)) < 0 THEN -1 ELSE 1
FloorOf(v) == Root(v, 0)
CeilOf(v)  == LET m == Root(v, 0) IN IF IsIntVal(v, m) THEN m ELSE ZAdd(m, "1")
TruncOf(v) == IF SgnOf(v) < 0 THEN CeilOf(v) ELSE FloorOf(v)

\* ---- enclosures <<lo, hi, s>>: the interval [lo, hi] / 2^s
Box(v, n) == LET m == Root(v, n) IN <<m, ZAdd(m, "1"), n>>
MaxI(a, b) == IF a >= b THEN a ELSE b
BRat(q, n) == <<RFloorAt(q, n), RCeilAt(q, n), n>>
BTo(a, s) == <<ZShl(a[1], s - a[3]), ZShl(a[2], s - a[3]), s>>     \* s >= a[3]
BAdd(a, b) == LET s == MaxI(a[3], b[3]) x == BTo(a, s) y == BTo(b, s) IN <<ZAdd(x[1], y[1]), ZAdd(x[2], y[2]), s>>
BNeg(a) == <<ZNeg(a[2]), ZNeg(a[1]), a[3]>>
BSub(a, b) == BAdd(a, BNeg(b))
ZMin2(a, b) == IF ZCmp(a, b) <= 0 THEN a ELSE b
ZMax2(a, b) == IF ZCmp(a, b) <= 0 THEN b ELSE a
BMul(a, b) == LET w == ZMul(a[1], b[1]) x == ZMul(a[1], b[2]) y == ZMul(a[2], b[1]) z == ZMul(a[2], b[2])
              IN  <<ZMin2(ZMin2(w, x), ZMin2(y, z)), ZMax2(ZMax2(w, x), ZMax2(y, z)), a[3] + b[3]>>
BOne == <<"1", "1", 0>>
BPow(a, n) == FoldSeq(LAMBDA j, acc : BMul(acc, a), BOne, [j \in 1..n |-> j])
BScale(a, m) == BMul(a, <<m, m, 0>>)

\* ---- the gap
\* bits of an upper bound of the Mahler measure
MeasureBits(p) == ZBits(ZAdd(ZIsqrt(FoldSeq(LAMBDA c, acc : ZAdd(acc, ZMul(c, c)), "0", p)), "1"))
Prod(s) == FoldSeq(LAMBDA x, acc : acc * x, 1, s)
\* xs: the numbers, es: degrees of F in them, lbits: bits of L(F)
GapBits(xs, es, lbits) ==
  LET N == Prod([j \in 1..Len(xs) |-> PDeg(xs[j].p)]) IN
  FoldSeq(LAMBDA j, acc : acc + es[j] * (N \div PDeg(xs[j].p)) * MeasureBits(xs[j].p), N * lbits + 1, [j \in 1..Len(xs) |-> j])
\* sign of the quantity that E(n) encloses ever more tightly and that is 0 or at least 2^-gap
SignBy(E(_), gap) ==
  LET RECURSIVE S(_)
      S(n) == LET b == E(n) IN
              IF ZSgn(b[1]) > 0 THEN 1
              ELSE IF ZSgn(b[2]) < 0 THEN -1
              ELSE IF ZCmp(ZShl(ZSub(b[2], b[1]), gap), Pow2(b[3])) < 0 THEN 0
              ELSE S(IF n < gap /\ 3 * n > gap THEN gap + 8 ELSE 3 * n)
  IN  S(40)

\* ---- relations
SumIs(a, b, c) == SignBy(LAMBDA n : BSub(BAdd(Box(a, n), Box(b, n)), Box(c, n)), GapBits(<<a, b, c>>, <<1, 1, 1>>, 2)) = 0
ProdIs(a, b, c) == SignBy(LAMBDA n : BSub(BMul(Box(a, n), Box(b, n)), Box(c, n)), GapBits(<<a, b, c>>, <<1, 1, 1>>, 1)) = 0
ProdIsOne(a, b) == SignBy(LAMBDA n : BSub(BMul(Box(a, n), Box(b, n)), BOne), GapBits(<<a, b>>, <<1, 1>>, 1)) = 0
NegIs(a, c) == SignBy(LAMBDA n : BAdd(Box(a, n), Box(c, n)), GapBits(<<a, c>>, <<1, 1>>, 1)) = 0
\* a - c = m for an integer m
DiffIsInt(a, c, m) == SignBy(LAMBDA n : BSub(BSub(Box(a, n), Box(c, n)), <<m, m, 0>>), GapBits(<<a, c>>, <<1, 1>>, ZBits(m) + 2)) = 0
\* a = c + q*b for an integer q
MultIs(a, b, c, q) ==
  SignBy(LAMBDA n : BSub(BSub(Box(a, n), Box(c, n)), BScale(Box(b, n), q)), GapBits(<<a, b, c>>, <<1, 1, 1>>, ZBits(q) + 2)) = 0
Cmp(a, b) ==
  IF a.p = b.p
  THEN \* roots of one polynomial: the same one iff it lies in both intervals
       LET k == MaxI(a.k, b.k)
           lo == ZMax2(ZShl(a.lo, k - a.k), ZShl(b.lo, k - b.k))
           hi == ZMin2(ZShl(a.hi, k - a.k), ZShl(b.hi, k - b.k))
       IN  IF ZCmp(lo, hi) <= 0 /\ PCountClosed(a.p, lo, Pow2(k), hi, Pow2(k)) = 1 THEN 0
           ELSE SignBy(LAMBDA n : BSub(Box(a, n), Box(b, n)), GapBits(<<a, b>>, <<1, 1>>, 1))
  ELSE SignBy(LAMBDA n : BSub(Box(a, n), Box(b, n)), GapBits(<<a, b>>, <<1, 1>>, 1))
Same(a, b) == Cmp(a, b) = 0
\* c^d = a^n (n > 0) or c^d * a^(-n) = 1 (n < 0)
PowIs(a, n, d, c) ==
  IF n > 0 THEN SignBy(LAMBDA w : BSub(BPow(Box(c, w), d), BPow(Box(a, w), n)), GapBits(<<a, c>>, <<n, d>>, 1)) = 0
  ELSE SignBy(LAMBDA w : BSub(BMul(BPow(Box(c, w), d), BPow(Box(a, w), -n)), BOne), GapBits(<<a, c>>, <<-n, d>>, 1)) = 0
\* c = a - b * trunc(a / b), b # 0
RemIs(a, b, c) ==
  LET sc == SgnOf(c)  sb == SgnOf(b)
      Abs(E) == IF ZSgn(E[1]) < 0 THEN BNeg(E) ELSE E
      \* |b| - |c|
      less == SignBy(LAMBDA n : BSub(IF sb > 0 THEN Box(b, n) ELSE BNeg(Box(b, n)),
                                     IF sc >= 0 THEN Box(c, n) ELSE BNeg(Box(c, n))), GapBits(<<b, c>>, <<1, 1>>, 1)) = 1
      \* the nearest integer to (a - c) / b
      RECURSIVE Q(_)
      Q(n) == LET d == BSub(Box(a, n), Box(c, n))  e == Box(b, n)
                  x == ZDiv(ZAdd(ZAdd(d[1], d[1]), e[1]), ZAdd(e[1], e[1]))
              IN  IF ZSgn(e[1]) * ZSgn(e[2]) > 0 /\ ZBits(e[1]) > 20 + ZBits(d[1]) - ZBits(e[1]) THEN x ELSE Q(2 * n)
  IN  /\ sc = 0 \/ sc = SgnOf(a)
      /\ less
      /\ MultIs(a, b, c, Q(64))

\* ---- binary logarithms of v > 0
FloorLog2(v) ==
  LET RECURSIVE F(_)
      F(n) == LET m == Root(v, n) IN IF ZSgn(m) > 0 THEN ZBits(m) - 1 - n ELSE F(2 * n + 8)
  IN  F(0)
RPow2(j) == IF j >= 0 THEN <<Pow2(j), "1">> ELSE <<"1", Pow2(-j)>>
IsPow2(v) == IsRatVal(v, RPow2(FloorLog2(v)))
CeilLog2(v) == IF IsPow2(v) THEN FloorLog2(v) ELSE FloorLog2(v) + 1
=============================================================================
