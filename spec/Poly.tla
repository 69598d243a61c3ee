------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials over the coefficient kinds of the crate.                    *)
(*                                                                         *)
(* A polynomial over any of the kinds                                      *)
(*   KZ  integers (big and machine)                                        *)
(*   KQ  rationals                                                         *)
(*   KM  residues modulo m (M.: m prime, R.: any m > 1)                    *)
(* is a pair [n, d]: the integer polynomial n (BigPoly) over the common    *)
(* denominator d, in the canonical form that Canon gives.  A ring is       *)
(* [kind, m].                                                              *)
(***************************************************************************)
EXTENDS BigPoly, Rat, JsonShape
KZ == {"Z", "i8", "i16", "i32", "i64", "i128", "isize"}
KQ == {"Q", "Q64", "Q128"}
KF == {"M.i32", "M.i64", "M.big", "M.mod2", "M.mod5", "M.mod7"}
KR == {"R.i32", "R.u8", "R.u64"}
KM == KF \cup KR
RingOf(e) == [kind |-> e.kind, m |-> IF e.kind \in KM THEN e.m ELSE "0"]
IsField(R) == R.kind \in KQ \cup KF

PMod(p, m) == PNorm([j \in 1..Len(p) |-> ZMod(p[j], m)])
Canon(R, n, d) ==
  IF R.kind \in KZ THEN [n |-> PNorm(n), d |-> "1"]
  ELSE IF R.kind \in KM THEN [n |-> PMod(n, R.m), d |-> "1"]
  ELSE LET p == PNorm(n)
           g == ZGcd(PContent(p), d)
           h == IF ZSgn(d) < 0 THEN ZNeg(g) ELSE g
       IN  [n |-> PDivZ(p, h), d |-> ZDiv(d, h)]
\* ---- the crate's encoding
\* a coefficient as <<numerator, denominator>>
CoefIn(R, v) == IF R.kind \in KQ THEN (IF IsArr(v) THEN <<v[1], v[2]>> ELSE <<v, "1">>)
                ELSE IF R.kind \in KM /\ IsArr(v) THEN <<v[1], "1">> ELSE <<v, "1">>
In(R, v) ==
  IF R.kind \in KQ /\ IsObj(v) THEN Canon(R, v.e, v.d)
  ELSE LET c == [j \in 1..Len(v) |-> CoefIn(R, v[j])]
           d == FoldSeq(LAMBDA x, acc : ZMul(acc, x[2]), "1", c)
       IN  Canon(R, [j \in 1..Len(c) |-> ZMul(c[j][1], ZDiv(d, c[j][2]))], d)
ScalarIn(R, v) == LET c == CoefIn(R, v) IN Canon(R, <<c[1]>>, c[2])
Out(R, p) == IF R.kind \in KZ THEN p.n
             ELSE IF R.kind \in KQ THEN [e |-> p.n, d |-> p.d]
             ELSE [j \in 1..Len(p.n) |-> <<p.n[j], R.m>>]
\* coefficient of X^j
CoefOut(R, p, j) == IF R.kind \in KZ THEN PCoef(p.n, j)
                    ELSE IF R.kind \in KQ THEN RNorm(<<PCoef(p.n, j), p.d>>)
                    ELSE <<PCoef(p.n, j), R.m>>
ScalarOut(R, p) == CoefOut(R, p, 0)
\* ---- ring operations
Const(R, c) == Canon(R, <<c>>, "1")
Zero(R) == Const(R, "0")
OneP(R) == Const(R, "1")
Deg(p) == Len(p.n) - 1
IsZeroP(p) == p.n = <<>>
LcP(R, p) == Canon(R, <<PLc(p.n)>>, p.d)          \* as a constant
AddP(R, a, b) == Canon(R, PAdd(PScale(a.n, b.d), PScale(b.n, a.d)), ZMul(a.d, b.d))
NegP(R, a) == Canon(R, PNeg(a.n), a.d)
SubP(R, a, b) == AddP(R, a, NegP(R, b))
MulP(R, a, b) == Canon(R, PMul(a.n, b.n), ZMul(a.d, b.d))
PowP(R, a, k) == FoldSeq(LAMBDA x, acc : MulP(R, acc, a), OneP(R), [j \in 1..k |-> j])
DerivP(R, a) == Canon(R, PDeriv(a.n), a.d)
ShiftP(R, a, k) == Canon(R, PShift(a.n, k), a.d)
\* value at the constant x
EvalP(R, a, x) == Canon(R, <<PEvalH(a.n, IF IsZeroP(x) THEN "0" ELSE x.n[1], x.d)>>,
                        ZMul(a.d, ZPow(x.d, IF Deg(a) < 0 THEN 0 ELSE Deg(a))))
\* ---- constants
Unit(R, c) == IF R.kind \in KM THEN ~IsZeroP(c) /\ ZGcd(c.n[1], R.m) = "1"
              ELSE IF R.kind \in KQ THEN ~IsZeroP(c) ELSE c.n \in {<<"1">>, <<"-1">>}
InvC(R, c) == IF R.kind \in KM THEN Const(R, ZInvMod(c.n[1], R.m))
              ELSE Canon(R, <<c.d>>, c.n[1])              \* KQ; or +-1 in KZ
\* all coefficients of p are multiples of the constant c # 0
DivisibleC(R, p, c) == IF R.kind \in KZ THEN \A j \in 1..Len(p.n) : ZMod(p.n[j], c.n[1]) = "0" ELSE Unit(R, c)
DivC(R, p, c) == IF R.kind \in KZ THEN Canon(R, PDivZ(p.n, c.n[1]), "1") ELSE MulP(R, p, InvC(R, c))
\* ---- division in the field of fractions; b # 0 with a unit leading coefficient there
FieldOf(R) == IF R.kind \in KZ THEN [kind |-> "Q", m |-> "0"] ELSE R
\* x = quo b + r modulo R.m for a monic b: eight coefficients of the quotient at a time, so that the integers stay small
RECURSIVE ModDiv(_, _, _)
ModDiv(R, x, b) ==
  IF Len(x) <= Len(b) + 7
  THEN LET s == PPseudo(x, b) IN [quo |-> Canon(R, s.quo, "1").n, r |-> Canon(R, s.r, "1").n]
  ELSE LET cut == Len(x) - (Len(b) + 7)
           s == ModDiv(R, SubSeq(x, cut + 1, Len(x)), b)
           t == ModDiv(R, Canon(R, SubSeq(x, 1, cut) \o s.r, "1").n, b)
       IN  [quo |-> t.quo \o [j \in 1..(cut - Len(t.quo)) |-> "0"] \o s.quo, r |-> t.r]
DivRemF(R, a, b) ==
  IF Len(a.n) < Len(b.n) THEN [q |-> Zero(R), r |-> a]
  ELSE IF R.kind \in KM
       THEN LET i == InvC(R, LcP(R, b))
                s == ModDiv(R, a.n, MulP(R, b, i).n)     \* monic divisor
            IN  [q |-> MulP(R, Canon(R, s.quo, "1"), i), r |-> Canon(R, s.r, "1")]
       ELSE LET s == PPseudo(a.n, b.n)
                f == ZMul(ZPow(PLc(b.n), Len(a.n) - Len(b.n) + 1), a.d)
            IN  [q |-> Canon(R, PScale(s.quo, b.d), f), r |-> Canon(R, s.r, f)]
MonicF(R, a) == IF IsZeroP(a) THEN a ELSE MulP(R, a, InvC(R, LcP(R, a)))
GcdF(R, a, b) ==      \* monic
  IF R.kind \in KM
  THEN LET RECURSIVE G(_, _)
           G(x, y) == IF IsZeroP(y) THEN x ELSE G(y, MonicF(R, DivRemF(R, x, y).r))
       IN  MonicF(R, G(a, b))
  ELSE MonicF(R, Canon(R, PGcd(a.n, b.n), "1"))
DividesF(R, g, a) == IF IsZeroP(g) THEN IsZeroP(a) ELSE IsZeroP(DivRemF(R, a, g).r)
\* resultant, as a constant
ResP(R, a, b) == IF IsZeroP(a) \/ IsZeroP(b) THEN Zero(R)
                 ELSE Canon(R, <<PRes(a.n, b.n)>>, ZMul(ZPow(a.d, Deg(b)), ZPow(b.d, Deg(a))))
\* content with the sign of the leading coefficient (KZ, KQ), as a constant
ContentP(R, a) == IF IsZeroP(a) THEN Zero(R)
                  ELSE Canon(R, <<IF ZSgn(PLc(a.n)) < 0 THEN ZNeg(PContent(a.n)) ELSE PContent(a.n)>>, a.d)
PrimP(R, a) == Canon(R, PPrim(a.n), "1")
\* the canonical associate and the constant that divides a into it: primitive with positive leading coefficient in KZ, else monic
ReducingP(R, a) == IF R.kind \in KZ THEN ContentP(R, a) ELSE IF IsZeroP(a) THEN Zero(R) ELSE LcP(R, a)
ReduceP(R, a) == IF R.kind \in KZ THEN PrimP(R, a) ELSE MonicF(R, a)
MaxNormP(R, a) == Canon(R, <<FoldSeq(LAMBDA x, acc : IF ZCmp(ZAbs(x), acc) > 0 THEN ZAbs(x) ELSE acc, "0", a.n)>>, a.d)
SumNormP(R, a) == Canon(R, <<FoldSeq(LAMBDA x, acc : ZAdd(ZAbs(x), acc), "0", a.n)>>, a.d)
\* a = c * b for a positive rational c (KZ, KQ)
PosMultiple(a, b) == PPrim(a.n) = PPrim(b.n) /\ ZSgn(PLc(a.n)) = ZSgn(PLc(b.n))

\* ---- polynomials in Y over Z[X]: sequences of BigPoly polynomials
YNorm(s) == LET nz == {j \in 1..Len(s) : s[j] # <<>>} IN IF nz = {} THEN <<>> ELSE SubSeq(s, 1, Max(nz))
YIn(v) == YNorm([j \in 1..Len(v) |-> PNorm(v[j])])
YCoef(p, j) == IF j + 1 \in 1..Len(p) THEN p[j + 1] ELSE <<>>
YLc(p) == p[Len(p)]
YMax(a, b) == IF a >= b THEN a ELSE b
YAdd(p, q) == YNorm([j \in 1..YMax(Len(p), Len(q)) |-> PAdd(YCoef(p, j-1), YCoef(q, j-1))])
YNeg(p) == [j \in 1..Len(p) |-> PNeg(p[j])]
YSub(p, q) == YAdd(p, YNeg(q))
YScale(p, c) == YNorm([j \in 1..Len(p) |-> PMul(p[j], c)])
YMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
              ELSE YNorm([k \in 1..(Len(p) + Len(q) - 1) |->
                     FoldSeq(LAMBDA j, acc : IF k - j + 1 \in 1..Len(q) THEN PAdd(acc, PMul(p[j], q[k - j + 1])) ELSE acc,
                             <<>>, [j \in 1..Len(p) |-> j])])
YPow(p, n) == FoldSeq(LAMBDA x, acc : YMul(acc, p), <<<<"1">>>>, [j \in 1..n |-> j])
YDeriv(p) == IF Len(p) <= 1 THEN <<>> ELSE YNorm([j \in 1..(Len(p)-1) |-> PScale(p[j+1], Z(j))])
YEval(p, c) == FoldSeq(LAMBDA x, acc : PAdd(PMul(acc, c), x), <<>>, Reverse(p))
YMono(c, n) == IF c = <<>> THEN <<>> ELSE [j \in 1..(n+1) |-> IF j = n + 1 THEN c ELSE <<>>]
\* lc(q)^steps * p = quo * q + r
YPseudo(p, q) ==
  LET steps == Len(p) - Len(q) + 1
      step(j, st) ==
        LET c == YCoef(st.r, Len(q) - 1 + j - 1)
        IN  [quo |-> YAdd(YScale(st.quo, YLc(q)), YMono(c, j - 1)),
             r |-> YSub(YScale(st.r, YLc(q)), YMul(YMono(c, j - 1), q))]
  IN  IF steps <= 0 THEN [quo |-> <<>>, r |-> p, f |-> <<"1">>]
      ELSE LET z == FoldSeq(step, [quo |-> <<>>, r |-> p], [j \in 1..steps |-> steps + 1 - j])
           IN  [quo |-> z.quo, r |-> z.r, f |-> PPow(YLc(q), steps)]
\* c divides p in Z[X]
XDivides(c, p) == LET s == PPseudo(p, c)  f == IF Len(p) < Len(c) THEN "1" ELSE ZPow(PLc(c), Len(p) - Len(c) + 1) IN
                  s.r = <<>> /\ \A j \in 1..Len(s.quo) : ZMod(s.quo[j], f) = "0"
YDividesC(c, p) == \A j \in 1..Len(p) : XDivides(c, p[j])
YDivides(q, p) == LET s == YPseudo(p, q) IN s.r = <<>> /\ YDividesC(s.f, s.quo)
\* resultant with respect to Y, at X = x: Sylvester determinant with the formal degrees
YSyl(p, q, x) ==
  LET m == Len(p) - 1  n == Len(q) - 1
      ev(s) == [j \in 1..Len(s) |-> PEval(s[j], x)]
      pe == ev(p)  qe == ev(q)
      row(r, shift) == [j \in 1..(m+n) |-> IF (j - shift) \in 1..Len(r) THEN r[Len(r) + 1 - (j - shift)] ELSE "0"]
  IN  [j \in 1..(m+n) |-> IF j <= n THEN row(pe, j-1) ELSE row(qe, j-n-1)]
XDeg(p) == FoldSeq(LAMBDA c, acc : YMax(acc, Len(c) - 1), 0, p)
\* v (in Z[X]) is the resultant of p and q: both have degree <= D in X and agree at D + 1 points
YIsRes(v, p, q) ==
  IF p = <<>> \/ q = <<>> THEN v = <<>>
  ELSE LET dx == (Len(q) - 1) * XDeg(p) + (Len(p) - 1) * XDeg(q)
       IN  Len(v) - 1 <= dx /\ \A x \in 0..dx : PEval(v, Z(x - (dx \div 2))) = Det(YSyl(p, q, Z(x - (dx \div 2))))
=============================================================================
