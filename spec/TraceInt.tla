------------------------------ MODULE TraceInt ------------------------------
(* Events of the integer and ratio helper traits.                           *)
EXTENDS TraceBase, Rat, JsonShape
Bits == [i8 |-> 8, i16 |-> 16, i32 |-> 32, i64 |-> 64, i128 |-> 128, isize |-> 64,
         u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, u128 |-> 128, usize |-> 64, Q32 |-> 32, Q64 |-> 64]
Unsigned == {"u8", "u16", "u32", "u64", "u128", "usize", "BigUint"}
\* representable in the type
Fits(k, v) == IF k \in {"BigInt", "Q"} THEN TRUE
              ELSE IF k = "BigUint" THEN ZSgn(v) >= 0
              ELSE IF k \in Unsigned THEN ZSgn(v) >= 0 /\ ZCmp(v, Pow2(Bits[k])) < 0
              ELSE ZCmp(v, Pow2(Bits[k] - 1)) < 0 /\ ZCmp(v, ZNeg(Pow2(Bits[k] - 1))) >= 0
\* nothing is said about results that the type cannot hold, except that they are not made up
Unless(k, v, e, verdict) == IF Fits(k, v) THEN verdict ELSE Need(e.out.k # "ok", "the result does not fit the type")
Lcm(a, b) == IF a = "0" \/ b = "0" THEN "0" ELSE ZAbs(ZDiv(ZMul(a, b), ZGcd(a, b)))
ExactDiv(e) ==
  LET a == e.a[1]  b == e.a[2] IN
  IF b = "0" THEN MustRefuse(e)
  ELSE IF ZMod(a, b) # "0" THEN MustRefuse(e)
  ELSE Unless(e.kind, ZDiv(a, b), e, MustEqual(e, ZDiv(a, b)))
Log2(e) ==
  LET a == e.a[1] IN
  MustEqual(e, [floor |-> IF ZSgn(a) > 0 THEN Z(ZBits(a) - 1) ELSE "none",
                ceil |-> IF ZSgn(a) > 0 THEN Z(ZBits(ZSub(a, "1"))) ELSE "none",
                \* the exponent of two in a
                tz |-> IF a = "0" THEN "none"
                       ELSE Z(CHOOSE n \in 0..ZBits(a) : ZMod(a, Pow2(n)) = "0" /\ ZMod(a, Pow2(n + 1)) # "0")])
\* ---- quotient to the nearest integer, halves towards zero; for unsigned types the remainder cannot be negative, so the floor
NearQuo(k, a, b) ==
  LET q == ZDiv(ZAbs(a), ZAbs(b))  r == ZMod(ZAbs(a), ZAbs(b))
      m == IF k \notin Unsigned /\ ZCmp(ZMul("2", r), ZAbs(b)) > 0 THEN ZAdd(q, "1") ELSE q
  IN  IF ZSgn(a) * ZSgn(b) < 0 THEN ZNeg(m) ELSE m
Nearest(e) ==
  LET a == e.a[1]  b == e.a[2] IN
  IF b = "0" THEN MustRefuse(e)
  ELSE LET q == NearQuo(e.kind, a, b) IN
       IF Fits(e.kind, q) THEN MustEqual(e, <<q, ZSub(a, ZMul(q, b))>>) ELSE MustRefuse(e)
Egcd(e) ==
  LET a == e.a[1]  b == e.a[2]  g == ZGcd(a, b)  l == Lcm(a, b) IN
  Unless(e.kind, g, e,
    IF e.op = "t.egcd_lcm" /\ ~Fits(e.kind, l) THEN "ok"
    ELSE MustBe(e, LAMBDA v : /\ v.gcd = g /\ ZAdd(ZMul(v.x, a), ZMul(v.y, b)) = g
                              /\ (e.op = "t.egcd_lcm" => v.lcm = l), "Bezout identity"))
\* ---- ratios: gcd(a/b, c/d) = gcd(ad, cb)/(bd) up to sign; every common divisor a multiple
QIn(v) == RNorm(<<v[1], v[2]>>)
QGcd(x, y) == RNorm(<<ZGcd(ZMul(x[1], y[2]), ZMul(y[1], x[2])), ZMul(x[2], y[2])>>)
QLcm(x, y) == RNorm(<<Lcm(ZMul(x[1], y[2]), ZMul(y[1], x[2])), ZMul(x[2], y[2])>>)
QFits(k, q) == Fits(k, q[1]) /\ Fits(k, q[2])
\* of a ratio and zero the gcd is the ratio, up to sign
QSame(v, q, x, y) == v = q \/ ((RSgn(x) = 0 \/ RSgn(y) = 0) /\ RNeg(v) = q)
\* a refused assignment leaves the value as it was (it may be brought to lowest terms)
QRefuse(e, x) == IF e.form \in CheckedAssign
                 THEN (IF e.out.k # "err" THEN "should have reported failure, got " \o e.out.k
                       ELSE Need(e.out.v = x, "failed operation changed its operand"))
                 ELSE MustRefuse(e)
QVerdict(e) ==
  LET x == QIn(e.a[1]) IN
  IF e.op = "t.exact_divi" THEN
    (IF e.a[2] = "0" THEN QRefuse(e, x) ELSE MustEqual(e, RNorm(RDiv(x, RInt(e.a[2])))))
  ELSE LET y == QIn(e.a[2]) IN
  CASE e.op = "t.gcd" -> MustBe(e, LAMBDA v : QSame(v, QGcd(x, y), x, y), "not the greatest common divisor")
    [] e.op = "t.lcm" -> MustEqual(e, QLcm(x, y))
    [] e.op = "t.egcd_lcm" ->
         MustBe(e, LAMBDA v : /\ QSame(v.gcd, QGcd(x, y), x, y) /\ v.lcm = QLcm(x, y)
                              /\ REq(RAdd(RMul(v.x, x), RMul(v.y, y)), v.gcd), "Bezout identity")
    [] e.op = "t.nearest" -> IF RSgn(y) = 0 THEN MustRefuse(e)
         ELSE LET q == RNorm(RDiv(x, y)) IN IF QFits(e.kind, q) THEN MustEqual(e, <<q, <<"0", "1">>>>) ELSE "ok"
    [] e.op = "t.exact_div" -> IF RSgn(y) = 0 THEN QRefuse(e, x) ELSE MustEqual(e, RNorm(RDiv(x, y)))
    [] OTHER -> "unknown operation"
Verdict(e) ==
  IF e.kind \in {"Q", "Q64", "Q32"} THEN QVerdict(e)
  ELSE LET a == e.a[1]  b == IF Len(e.a) > 1 THEN e.a[2] ELSE "0" IN
  CASE e.op = "t.gcd" -> Unless(e.kind, ZGcd(a, b), e, MustEqual(e, ZGcd(a, b)))
    [] e.op = "t.lcm" -> IF Fits(e.kind, Lcm(a, b)) /\ Fits(e.kind, ZGcd(a, b)) THEN MustEqual(e, Lcm(a, b)) ELSE "ok"
    [] e.op = "t.gcd_lcm" -> IF Fits(e.kind, Lcm(a, b)) /\ Fits(e.kind, ZGcd(a, b))
                             THEN MustEqual(e, [gcd |-> ZGcd(a, b), lcm |-> Lcm(a, b)]) ELSE "ok"
    [] e.op = "t.log2" -> Log2(e)
    [] e.op = "t.exact_div" -> ExactDiv(e)
    [] e.op = "t.nearest" -> Nearest(e)
    [] e.op \in {"t.egcd", "t.egcd_lcm"} -> Egcd(e)
    [] OTHER -> "unknown operation"
Init == TInit
Next == TStep(Verdict)
Spec == Init /\ [][Next]_tvars
=============================================================================
