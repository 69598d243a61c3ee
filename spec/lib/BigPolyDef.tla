----------------------------- MODULE BigPolyDef -----------------------------
(***************************************************************************)
(* Polynomials in one variable over the integers: the definitions.         *)
(*                                                                         *)
(* A polynomial is the sequence of its coefficients (BigZ numerals), the   *)
(* constant term first, without trailing zeros; <<>> is 0.                 *)
(*                                                                         *)
(* Every operator here is written out in terms of BigZ.  BigPoly.tla       *)
(* re-exports them and java/BigPoly.java gives TLC a faster evaluation of  *)
(* the same operators; SelfTest.tla compares both.                         *)
(***************************************************************************)
EXTENDS BigZ, SequencesExt, FiniteSetsExt

\* drop trailing zeros
PNorm(s) == LET nz == {i \in 1..Len(s) : s[i] # "0"}
            IN  IF nz = {} THEN <<>> ELSE SubSeq(s, 1, Max(nz))
PIsNorm(s) == Len(s) = 0 \/ s[Len(s)] # "0"
PDeg(p)    == Len(p) - 1                               \* -1 for the zero polynomial
PCoef(p, i) == IF i + 1 \in 1..Len(p) THEN p[i + 1] ELSE "0"
PLc(p)     == IF p = <<>> THEN "0" ELSE p[Len(p)]

MaxI(a, b) == IF a >= b THEN a ELSE b

PAdd(p, q) == PNorm([i \in 1..MaxI(Len(p), Len(q)) |-> ZAdd(PCoef(p, i-1), PCoef(q, i-1))])
PNeg(p)    == [i \in 1..Len(p) |-> ZNeg(p[i])]
PSub(p, q) == PAdd(p, PNeg(q))
PScale(p, c) == PNorm([i \in 1..Len(p) |-> ZMul(p[i], c)])
PShift(p, n) == IF p = <<>> THEN <<>> ELSE [i \in 1..n |-> "0"] \o p       \* p * X^n

ZSum(s) == FoldSeq(LAMBDA x, acc : ZAdd(acc, x), "0", s)
PMul(p, q) ==
  IF p = <<>> \/ q = <<>> THEN <<>>
  ELSE PNorm([k \in 1..(Len(p) + Len(q) - 1) |->
         ZSum([i \in 1..Len(p) |->
            IF k - i + 1 \in 1..Len(q) THEN ZMul(p[i], q[k - i + 1]) ELSE "0"])])
PPow(p, n) == FoldSeq(LAMBDA x, acc : PMul(acc, p), <<"1">>, [i \in 1..n |-> i])

PDeriv(p) == IF Len(p) <= 1 THEN <<>> ELSE PNorm([i \in 1..(Len(p)-1) |-> ZMul(p[i+1], Z(i))])

\* den^deg * p(num/den): an integer with the sign of p(num/den) when den > 0
PEvalH(p, num, den) ==
  LET step(c, acc) == << ZAdd(ZMul(acc[1], num), ZMul(c, acc[2])), ZMul(acc[2], den) >>
  IN  FoldSeq(step, <<"0", "1">>, Reverse(p))[1]
PEval(p, x) == PEvalH(p, x, "1")
PSgnAt(p, num, den) == ZSgn(PEvalH(p, num, den))

\* non-negative gcd of the coefficients
PContent(p) == FoldSeq(LAMBDA x, acc : ZGcd(acc, x), "0", p)
PDivZ(p, c) == [i \in 1..Len(p) |-> ZDiv(p[i], c)]           \* c divides p
PPrim(p)    == IF p = <<>> THEN <<>>
               ELSE PDivZ(p, IF ZSgn(PLc(p)) < 0 THEN ZNeg(PContent(p)) ELSE PContent(p))

\* lc(q)^(deg p - deg q + 1) * p = quo*q + rem, deg rem < deg q
PPseudo(p, q) ==
  LET steps == Len(p) - Len(q) + 1
      step(i, st) ==      \* i = steps..1 : cancel the coefficient of X^(deg q + i - 1)
        LET c == PCoef(st.r, PDeg(q) + i - 1)
        IN  [ quo |-> PAdd(PScale(st.quo, PLc(q)), PShift(PNorm(<<c>>), i - 1)),
              r   |-> PSub(PScale(st.r, PLc(q)), PShift(PScale(q, c), i - 1)) ]
  IN  IF steps <= 0 THEN [quo |-> <<>>, r |-> p]
      ELSE FoldSeq(step, [quo |-> <<>>, r |-> p], [i \in 1..steps |-> steps + 1 - i])
PPrem(p, q) == PPseudo(p, q).r

\* primitive gcd with positive leading coefficient; <<>> for (0, 0)
PGcd(p, q) ==
  LET RECURSIVE G(_, _)
      G(a, b) == IF b = <<>> THEN a ELSE LET r == PPrim(PPrem(a, b)) IN G(b, r)
      a == PPrim(p)   b == PPrim(q)
  IN  IF Len(a) >= Len(b) THEN PPrim(G(a, b)) ELSE PPrim(G(b, a))

\* does q divide p over the rationals (q # 0)
PDivides(q, p) == IF Len(p) < Len(q) THEN p = <<>> ELSE PPrem(p, q) = <<>>

\* determinant of a square integer matrix (sequence of rows), fraction free
Det(m) ==
  LET n == Len(m)
      step(k, st) ==
        IF st.det = "0" THEN st
        ELSE LET piv == {i \in k..n : st.m[i][k] # "0"}
             IN IF piv = {} THEN [st EXCEPT !.det = "0"]
                ELSE LET r  == Min(piv)
                         sw == [i \in 1..n |-> IF i = k THEN st.m[r] ELSE IF i = r THEN st.m[k] ELSE st.m[i]]
                         nm == [i \in 1..n |-> IF i <= k THEN sw[i]
                                  ELSE [j \in 1..n |-> IF j <= k THEN "0"
                                        ELSE ZDiv(ZSub(ZMul(sw[i][j], sw[k][k]), ZMul(sw[i][k], sw[k][j])), st.prev)]]
                     IN [m |-> nm, prev |-> sw[k][k], sgn |-> IF r = k THEN st.sgn ELSE -st.sgn, det |-> st.det]
      fin == FoldSeq(step, [m |-> m, prev |-> "1", sgn |-> 1, det |-> "1"], [k \in 1..(n-1) |-> k])
  IN  IF n = 0 THEN "1"
      ELSE IF fin.det = "0" THEN "0"
      ELSE IF fin.sgn = 1 THEN fin.m[n][n] ELSE ZNeg(fin.m[n][n])

\* Sylvester matrix of non-zero p, q; its determinant is the resultant
Sylvester(p, q) ==
  LET m == PDeg(p)  n == PDeg(q)
      row(r, shift) == [j \in 1..(m+n) |-> IF (j - shift) \in 1..Len(r) THEN r[Len(r) + 1 - (j - shift)] ELSE "0"]
  IN  [i \in 1..(m+n) |-> IF i <= n THEN row(p, i-1) ELSE row(q, i-n-1)]
PRes(p, q) == IF p = <<>> \/ q = <<>> THEN "0" ELSE Det(Sylvester(p, q))

\* Sturm chain of p, each member up to a positive factor
SturmChain(p) ==
  LET RECURSIVE S(_, _, _)
      posprim(r) == IF r = <<>> THEN r ELSE PDivZ(r, PContent(r))
      S(a, b, acc) == IF b = <<>> THEN acc
                      ELSE LET e  == Len(a) - Len(b) + 1
                               pr == PPrem(a, b)      \* lc(b)^e * (a mod b)
                               r  == IF ZSgn(PLc(b)) < 0 /\ e % 2 = 1 THEN pr ELSE PNeg(pr)
                           IN  S(b, posprim(r), Append(acc, b))
  IN  S(posprim(p), posprim(PDeriv(p)), <<posprim(p)>>)
\* sign variations of a sequence of signs, zeros ignored
Variations(sg) == LET nz == SelectSeq(sg, LAMBDA x : x # 0)
                  IN  Cardinality({i \in 1..(Len(nz)-1) : nz[i] # nz[i+1]})
VarAt(ch, num, den) == Variations([i \in 1..Len(ch) |-> PSgnAt(ch[i], num, den)])
\* number of distinct real roots of p # 0 in (an/ad, bn/bd], an/ad <= bn/bd.
\* Sturm's theorem on the square-free part, so that the ends may be roots.
PSqFree(p) == LET g == PGcd(p, PDeriv(p)) IN IF Len(g) <= 1 THEN PPrim(p) ELSE PPrim(PPseudo(p, g).quo)
PCountHalfOpen(p, an, ad, bn, bd) ==
  LET ch == SturmChain(PSqFree(p)) IN VarAt(ch, an, ad) - VarAt(ch, bn, bd)
PCountClosed(p, an, ad, bn, bd) ==
  PCountHalfOpen(p, an, ad, bn, bd) + (IF PSgnAt(p, an, ad) = 0 THEN 1 ELSE 0)
VarPosInf(ch) == Variations([i \in 1..Len(ch) |-> ZSgn(PLc(ch[i]))])
VarNegInf(ch) == Variations([i \in 1..Len(ch) |-> IF PDeg(ch[i]) % 2 = 0 THEN ZSgn(PLc(ch[i])) ELSE -ZSgn(PLc(ch[i]))])
PCountAll(p) == LET ch == SturmChain(PSqFree(p)) IN VarNegInf(ch) - VarPosInf(ch)

\* The only root r of p in [lo, hi] / 2^k, as the integer m with m <= 2^n * r < m + 1
PRootFloor(p, lo, hi, k, n) ==
  LET den == ZShl("1", n)   kd == ZShl("1", k)
      sf  == PSqFree(p)
      \* is r >= m / 2^n, i.e. is there no root of p in [lo/2^k, m/2^n)
      atLeast(m) == IF ZCmp(ZMul(m, kd), ZMul(lo, den)) <= 0 THEN TRUE
                    ELSE IF ZCmp(ZMul(m, kd), ZMul(hi, den)) > 0 THEN FALSE
                    ELSE PCountClosed(sf, lo, kd, m, den) - (IF PSgnAt(sf, m, den) = 0 THEN 1 ELSE 0) = 0
      RECURSIVE B(_, _)      \* invariant: r >= a/2^n, r < b/2^n
      B(a, b) == IF ZAdd(a, "1") = b THEN a
                 ELSE LET m == ZDiv(ZAdd(a, b), "2") IN IF atLeast(m) THEN B(m, b) ELSE B(a, m)
  IN  B(ZDiv(ZMul(lo, den), kd), ZAdd(ZDiv(ZMul(hi, den), kd), "1"))

\* p (primitive, degree >= 1) has no factor of smaller positive degree.  By
\* Kronecker: a factor of degree d is determined by its values at d+1 points,
\* which divide the values of p there.  (Only evaluated for small p.)
ZDivisors(a) == LET n == ZInt(ZAbs(a)) IN {Z(d) : d \in {x \in (-n)..n : x # 0 /\ n % (IF x < 0 THEN -x ELSE x) = 0}}
PIrreducible(p) ==
  LET d == PDeg(p)
      B == 2^d * ZInt(ZSum([i \in 1..Len(p) |-> ZAbs(p[i])]))      \* Mignotte: |coefficient of a factor| <= B
      small(n) == {PNorm(s) : s \in [1..(n+1) -> {Z(c) : c \in (-B)..B}]}
  IN  d >= 1 /\ (d = 1 \/ ~ \E n \in 1..(d \div 2) : \E f \in small(n) : PDeg(f) = n /\ PDivides(f, p))
=============================================================================
