---------------------------- MODULE MCQuadratic -----------------------------
(***************************************************************************)
(* How two numbers of degree at most two are put in order: a comparison    *)
(* with a ratio n/e looks at which side of the vertex the ratio lies and   *)
(* at the sign of the polynomial there; of two irrational numbers          *)
(*    (-b1 + sqrt(d1))/(2*a1) < (-b2 + sqrt(d2))/(2*a2)                    *)
(* is brought to one side, one square root is isolated, both sides are     *)
(* squared, the other is isolated and both sides are squared again, with   *)
(* the signs looked at before each squaring; two numbers with negative a   *)
(* are negated and swapped.  Checked for all pairs of small numbers        *)
(* against the order of the surds, and that order against enclosures by    *)
(* integer square roots.                                                   *)
(* Signs = FALSE leaves out the look at the signs before the second        *)
(* squaring (must be refuted).                                             *)
(***************************************************************************)
EXTENDS Quadratic, Json, CSV, IOUtils
CONSTANTS Coefs, Signs
CoefsQ == -3..4
CoefsT == -5..6
VARIABLES ph, x0, y0, x, y, p, r, n2, res
vars == <<ph, x0, y0, x, y, p, r, n2, res>>
S(t) == <<Z(t[1]), Z(t[2]), Z(t[3])>>
All == {t \in Coefs \X Coefs \X Coefs : QExists(S(t)) /\ QCanon(S(t)) = S(t)}
Abs(n) == IF n < 0 THEN -n ELSE n
Neg(t) == <<-t[1], t[2], -t[3]>>
Disc(t) == t[2] * t[2] - 4 * t[3] * t[1]
Init == /\ x0 \in All /\ y0 \in All /\ x = x0 /\ y = y0
        /\ p = 0 /\ r = 0 /\ n2 = 0 /\ res = 9 /\ ph = "start"
Done(v) == ph' = "done" /\ res' = v
Keep == UNCHANGED <<x0, y0>>
\* t < n/e, t irrational
LessRatio(t, n, e) ==
  LET at == t[1] * e * e + n * (t[3] * n + t[2] * e) IN      \* polynomial at n/e, times e^2
  IF t[3] < 0 THEN t[2] * e < 2 * Abs(t[3]) * n \/ at > 0
  ELSE t[2] * e > -(2 * Abs(t[3]) * n) /\ at > 0
RatioCmp(t, n, e) ==
  IF t[3] = 0 THEN LET c == (-t[1]) * e - n * t[2] IN IF c < 0 THEN -1 ELSE IF c > 0 THEN 1 ELSE 0
  ELSE IF LessRatio(t, n, e) THEN -1 ELSE 1
Start == /\ ph = "start" /\ Keep /\ UNCHANGED <<x, y, p, r, n2>>
         /\ IF y[3] = 0 THEN Done(RatioCmp(x, -y[1], y[2]))
            ELSE IF x[3] = 0 THEN Done(-RatioCmp(y, -x[1], x[2]))
            ELSE IF x = y THEN Done(0)
            ELSE ph' = "surds" /\ UNCHANGED res
\* (u + sqrt(v)) / q < 0, the root irrational
RootBelow(u, v, q) == IF q > 0 THEN v < u * u /\ u <= 0 ELSE IF u > 0 THEN TRUE ELSE v > u * u
Sw == /\ ph = "surds" /\ x[3] < 0 /\ y[3] < 0
      /\ x' = Neg(y) /\ y' = Neg(x) /\ Keep /\ UNCHANGED <<ph, p, r, n2, res>>
\* one root isolated: less iff p + sqrt(r) < sqrt(k), for the case
First == /\ ph = "surds" /\ ~(x[3] < 0 /\ y[3] < 0) /\ Keep /\ UNCHANGED <<x, y>>
         /\ LET a1 == x[3]  b1 == x[2]  a2 == y[3]  b2 == y[2] IN
            IF a1 > 0 /\ a2 > 0
            THEN /\ p' = b2 * a1 - b1 * a2 /\ r' = Disc(x) * a2 * a2
                 /\ n2' = Disc(y) * a1 * a1 - r' - p' * p'
                 /\ IF RootBelow(p', r', a1) THEN Done(-1) ELSE ph' = "both" /\ UNCHANGED res
            ELSE IF a1 > 0
            THEN /\ p' = b1 * a2 - b2 * a1 /\ r' = Disc(y) * a1 * a1
                 /\ n2' = Disc(x) * a2 * a2 - p' * p' - r'
                 /\ IF RootBelow(p', r', a2) THEN Done(1) ELSE ph' = "minus" /\ UNCHANGED res
            ELSE /\ p' = b2 * a1 - b1 * a2 /\ r' = Disc(y) * a1 * a1
                 /\ n2' = Disc(x) * a2 * a2 - p' * p' - r'
                 /\ IF RootBelow(p', r', -a2) THEN Done(-1) ELSE ph' = "plus" /\ UNCHANGED res
\* 2*p*sqrt(r) against n2, both sides squared
Left == r * 4 * p * p
Right == n2 * n2
Ans(less) == IF less THEN -1 ELSE 1
Second == /\ ph \in {"both", "minus", "plus"} /\ Keep /\ UNCHANGED <<x, y, p, r, n2>>
          /\ Done(Ans(CASE ph = "both" -> IF p < 0 THEN (Signs /\ n2 > 0) \/ Left > Right ELSE (Signs => n2 >= 0) /\ Left < Right
                        [] ph = "minus" -> IF p > 0 THEN (Signs /\ n2 < 0) \/ Left > Right ELSE (Signs => n2 <= 0) /\ Left < Right
                        [] ph = "plus" -> IF p > 0 THEN (Signs => n2 >= 0) /\ Left < Right ELSE (Signs /\ n2 > 0) \/ Left > Right))
Next == Start \/ Sw \/ First \/ Second
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Order == ph = "done" => res = QCmp(S(x0), S(y0))
\* the order of the surds, by enclosures of 2^20 times the numbers
Enc(t) == LET u == Surd(S(t))
              s == ZIsqrt(ZMul(u.d, ZPow("2", 60)))
              lo == ZAdd(ZMul(u.p, ZPow("2", 30)), IF ZSgn(u.q) < 0 THEN ZNeg(ZAdd(s, "1")) ELSE IF u.q = "0" THEN "0" ELSE s)
          IN  [lo |-> ZDiv(lo, u.m), hi |-> ZAdd(ZDiv(ZAdd(lo, "1"), u.m), "1")]
Sound == ph = "start" =>
  LET c == QCmp(S(x0), S(y0))  ex == Enc(x0)  ey == Enc(y0) IN
  /\ (c = 0) = (x0 = y0)
  /\ c = -QCmp(S(y0), S(x0))
  /\ (c < 0 => ZCmp(ex.lo, ey.hi) <= 0) /\ (c > 0 => ZCmp(ey.lo, ex.hi) <= 0)
  \* different numbers of this size are further apart than the enclosures are wide
  /\ (c # 0 => ZCmp(ex.hi, ey.lo) < 0 \/ ZCmp(ey.hi, ex.lo) < 0)
\* arithmetic: the sum with a ratio lies where it should, negation turns the order round
Arith == (ph = "start" /\ QSummable(S(x0), S(y0))) =>
  LET s == QSum(S(x0), S(y0)) IN
  /\ IsQ(s) /\ QSum(s, QNeg(IF x0[3] = 0 THEN S(x0) ELSE S(y0))) = (IF x0[3] = 0 THEN S(y0) ELSE S(x0))
  /\ QCmp(s, S(x0)) = QSgn(S(y0)) /\ QCmp(s, S(y0)) = QSgn(S(x0))
Turn == ph = "start" => /\ QCmp(QNeg(S(x0)), QNeg(S(y0))) = -QCmp(S(x0), S(y0))
                        /\ QSgn(S(x0)) = QCmp(S(x0), <<"0", "1", "0">>) /\ QNeg(QNeg(S(x0))) = S(x0)
Ends == <>(ph = "done")
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([x |-> S(x0), y |-> S(y0)])>>, IOEnv.OUT)
=============================================================================
