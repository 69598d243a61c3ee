----------------------------- MODULE Quadratic ------------------------------
(***************************************************************************)
(* Real numbers of degree at most two, each given by the three terms       *)
(* <<constant, linear, quadratic>> of an integer polynomial c + b*X + a*X^2 *)
(* that names one of its roots:                                            *)
(*    a = 0:  -c/b            a # 0:  (-b + sqrt(b^2 - 4ac)) / (2a)        *)
(* so negating the three terms names the other root.                       *)
(* A number is p + q*sqrt(d) over m, with integers p, q, d >= 0, m > 0:     *)
(* a surd; the order of two surds is decided exactly by squaring.          *)
(***************************************************************************)
EXTENDS Rat
QDisc(t) == ZSub(ZMul(t[2], t[2]), ZMul("4", ZMul(t[3], t[1])))
QNegTerms(t) == <<ZNeg(t[1]), ZNeg(t[2]), ZNeg(t[3])>>
\* the terms name a real number
QExists(t) == ~(t[3] = "0" /\ t[2] = "0") /\ ZSgn(QDisc(t)) >= 0
Square(d) == LET s == ZIsqrt(d) IN ZMul(s, s) = d
QGcd3(t) == ZGcd(ZGcd(t[1], t[2]), t[3])
\* the root that is a ratio (QExists, and linear or of square discriminant)
QIsRatio(t) == t[3] = "0" \/ Square(QDisc(t))
QRatio(t) == IF t[3] = "0" THEN RNorm(<<ZNeg(t[1]), t[2]>>)
             ELSE RNorm(<<ZSub(ZIsqrt(QDisc(t)), t[2]), ZMul("2", t[3])>>)
QOfRatio(q) == LET n == RNorm(q) IN <<ZNeg(n[1]), n[2], "0">>
\* the one representation of the number: lowest terms, no ratio spelt as a quadratic root
QCanon(t) == IF QIsRatio(t) THEN QOfRatio(QRatio(t))
             ELSE LET g == QGcd3(t) IN <<ZDiv(t[1], g), ZDiv(t[2], g), ZDiv(t[3], g)>>
IsQ(t) == QExists(t) /\ t = QCanon(t)
\* ---- as a surd [p, q, d, m]
Surd(t) == IF t[3] = "0" THEN LET r == QRatio(t) IN [p |-> r[1], q |-> "0", d |-> "0", m |-> r[2]]
           ELSE LET s == IF ZSgn(t[3]) < 0 THEN "-1" ELSE "1" IN
                [p |-> ZMul(s, ZNeg(t[2])), q |-> s, d |-> QDisc(t), m |-> ZMul("2", ZAbs(t[3]))]
\* sign of p + q*sqrt(d)
Sgn1(p, q, d) ==
  LET sp == ZSgn(p)  sq == IF d = "0" THEN 0 ELSE ZSgn(q)  c == ZCmp(ZMul(p, p), ZMul(ZMul(q, q), d)) IN
  IF sp = sq THEN sp ELSE IF sp = 0 THEN sq ELSE IF sq = 0 THEN sp ELSE sp * c
\* sign of p + q*sqrt(d) + r*sqrt(f)
Sgn2(p, q, d, r, f) ==
  LET sa == Sgn1(p, q, d)  sb == IF f = "0" THEN 0 ELSE ZSgn(r) IN
  IF sa = sb THEN sa ELSE IF sa = 0 THEN sb ELSE IF sb = 0 THEN sa
  ELSE sa * Sgn1(ZSub(ZAdd(ZMul(p, p), ZMul(ZMul(q, q), d)), ZMul(ZMul(r, r), f)), ZMul("2", ZMul(p, q)), d)
QSgn(t) == LET u == Surd(t) IN Sgn1(u.p, u.q, u.d)
QCmp(t, v) == LET x == Surd(t)  y == Surd(v) IN
  Sgn2(ZSub(ZMul(x.p, y.m), ZMul(y.p, x.m)), ZMul(x.q, y.m), x.d, ZNeg(ZMul(y.q, x.m)), y.d)
\* ---- operations on canonical numbers; the sum needs one of them to be a ratio
QNeg(t) == QCanon(<<ZNeg(t[1]), t[2], ZNeg(t[3])>>)
QAbs(t) == IF QSgn(t) < 0 THEN QNeg(t) ELSE t
\* root + n/e is a root of the polynomial at X - n/e, times e^2
QShift(t, q) == LET n == q[1]  e == q[2] IN
  QCanon(<<ZAdd(ZSub(ZMul(t[1], ZMul(e, e)), ZMul(t[2], ZMul(n, e))), ZMul(t[3], ZMul(n, n))),
           ZSub(ZMul(t[2], ZMul(e, e)), ZMul("2", ZMul(t[3], ZMul(n, e)))),
           ZMul(t[3], ZMul(e, e))>>)
QSummable(t, v) == t[3] = "0" \/ v[3] = "0"
QSum(t, v) == IF t[3] = "0" THEN QShift(v, QRatio(t)) ELSE QShift(t, QRatio(v))
=============================================================================
