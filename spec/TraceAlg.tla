------------------------------ MODULE TraceAlg ------------------------------
(* Events of real algebraic numbers.  A result has to be the right value and *)
(* a valid number: equality and order of numbers rest on the canonical form. *)
EXTENDS TraceBase, Algebraic

AlgRec(v) == DOMAIN v = {"p", "lo", "hi", "k"}
\* literals come from the generator: a bad one is a mistake of the checker
ArgIsNum(e, n) == LET v == e.a[n] IN
  IF IsNum(v) THEN TRUE
  ELSE IF e.r[n] = "" THEN Assert(FALSE, <<"bad literal", e>>) ELSE FALSE
\* the event has to yield a number with property P
Yields(e, P(_)) ==
  IF e.out.k # "ok" THEN "failed on valid input: " \o e.out.k
  ELSE IF ~IsNum(e.out.v) THEN "the result does not denote a number"
  ELSE IF ~P(e.out.v) THEN "wrong value"
  ELSE IF ~WellFormed(e.out.v) THEN "not a minimal polynomial with an isolating interval"
  ELSE "ok"
YieldsInt(e, m) == Yields(e, LAMBDA v : IsIntVal(v, m))

Pow(e) ==
  LET a == e.a[1]  q == RNorm(e.a[2])  s == SgnOf(a)  zn == q[1]  zd == q[2] IN
  IF s = 0 THEN (IF ZSgn(zn) > 0 THEN YieldsInt(e, "0") ELSE MustRefuse(e))
  ELSE IF s < 0 /\ zd # "1" THEN MustRefuse(e)
  ELSE IF zn = "0" \/ IsIntVal(a, "1") THEN YieldsInt(e, "1")
  ELSE IF IsIntVal(a, "-1") THEN YieldsInt(e, IF ZMod(zn, "2") = "0" THEN "1" ELSE "-1")
  ELSE LET n == ZInt(zn)  d == ZInt(zd) IN
       IF PDeg(a.p) = 1 /\ d = 1
       THEN LET b == RNorm(<<ZNeg(a.p[1]), a.p[2]>>)
                w == IF n > 0 THEN RPow(b, n) ELSE RPow(RInv(b), -n)
            IN  Yields(e, LAMBDA v : IsRatVal(v, w))
       ELSE Yields(e, LAMBDA v : /\ SgnOf(v) = (IF s < 0 /\ n % 2 # 0 THEN -1 ELSE 1)
                            /\ PowIs(a, n, d, v))

CmpRec(e) ==
  LET c == Cmp(e.a[1], e.a[2]) IN
  MustEqual(e, [cmp |-> c, pcmp |-> c, eq |-> c = 0, ne |-> c # 0, lt |-> c < 0, le |-> c <= 0, gt |-> c > 0, ge |-> c >= 0,
                x |-> e.a[1], y |-> e.a[2]])
SignRec(e) ==
  LET a == e.a[1]  s == SgnOf(a) IN
  MustEqual(e, [cmp0 |-> s, pos |-> s > 0, neg |-> s < 0, zero |-> s = 0, one |-> IsIntVal(a, "1"), neg1 |-> IsIntVal(a, "-1")])
ClassRec(e) ==
  LET a == e.a[1]  rat == PDeg(a.p) = 1
      q == IF rat THEN RNorm(<<ZNeg(a.p[1]), a.p[2]>>) ELSE <<>>
      int == rat /\ q[2] = "1"
      data == [p |-> a.p, iv |-> [lo |-> a.lo, hi |-> a.hi, k |-> a.k]]
  IN  MustEqual(e, [degree |-> PDeg(a.p), is_rational |-> rat, is_integer |-> int, rational |-> q,
                    integer |-> IF int THEN q[1] ELSE "none", data |-> data, into |-> data])
MustBeNone(e) == IF e.out.k = "none" THEN "ok" ELSE "should have reported failure, got " \o e.out.k

NumArgs(e) == IF e.op \in {"a.add", "a.sub", "a.mul", "a.rem", "a.div", "a.cmp", "a.max", "a.min", "a.abs_sub", "a.rep"} THEN {1, 2}
              ELSE IF e.op \in {"a.from_int", "a.from_ratio", "a.const"} THEN {} ELSE {1}
Op(e) ==
  LET a == e.a[1]  b == e.a[2] IN
  CASE e.op = "a.add" -> Yields(e, LAMBDA v : SumIs(a, b, v))
    [] e.op = "a.sub" -> Yields(e, LAMBDA v : SumIs(v, b, a))
    [] e.op = "a.mul" -> Yields(e, LAMBDA v : ProdIs(a, b, v))
    [] e.op = "a.neg" -> Yields(e, LAMBDA v : NegIs(a, v))
    [] e.op = "a.div" -> IF SgnOf(b) = 0 THEN MustRefuse(e) ELSE Yields(e, LAMBDA v : ProdIs(b, v, a))
    [] e.op = "a.recip" -> IF SgnOf(a) = 0 THEN MustRefuse(e) ELSE Yields(e, LAMBDA v : ProdIsOne(a, v))
    [] e.op = "a.rem" -> IF SgnOf(b) = 0 THEN MustRefuse(e) ELSE Yields(e, LAMBDA v : RemIs(a, b, v))
    [] e.op = "a.pow" -> Pow(e)
    [] e.op = "a.cmp" -> CmpRec(e)
    [] e.op = "a.rep" -> LET q == a.p = b.p /\ a.lo = b.lo /\ a.hi = b.hi /\ a.k = b.k IN
                         MustBe(e, LAMBDA v : v.eq = q /\ v.ne = ~q /\ (q => v.hash), "wrong equality or hash of the representation")
    [] e.op = "a.sign" -> SignRec(e)
    [] e.op = "a.max" -> LET m == IF Cmp(a, b) >= 0 THEN a ELSE b IN Yields(e, LAMBDA v : Same(v, m))
    [] e.op = "a.min" -> LET m == IF Cmp(a, b) <= 0 THEN a ELSE b IN Yields(e, LAMBDA v : Same(v, m))
    [] e.op = "a.abs" -> IF SgnOf(a) < 0 THEN Yields(e, LAMBDA v : NegIs(a, v)) ELSE Yields(e, LAMBDA v : Same(a, v))
    [] e.op = "a.signum" -> YieldsInt(e, Z(SgnOf(a)))
    [] e.op = "a.abs_sub" -> IF Cmp(a, b) <= 0 THEN YieldsInt(e, "0") ELSE Yields(e, LAMBDA v : SumIs(v, b, a))
    [] e.op \in {"a.set", "a.const"} -> YieldsInt(e, IF e.form = "zero" THEN "0" ELSE IF e.form = "one" THEN "1" ELSE "-1")
    [] e.op = "a.ifloor" -> MustEqual(e, FloorOf(a))
    [] e.op = "a.iceil" -> MustEqual(e, CeilOf(a))
    [] e.op = "a.itrunc" -> MustEqual(e, TruncOf(a))
    [] e.op = "a.floor" -> YieldsInt(e, FloorOf(a))
    [] e.op = "a.ceil" -> YieldsInt(e, CeilOf(a))
    [] e.op = "a.trunc" -> YieldsInt(e, TruncOf(a))
    [] e.op = "a.fract" -> Yields(e, LAMBDA v : DiffIsInt(a, v, FloorOf(a)))
    [] e.op = "a.log2" -> IF SgnOf(a) > 0 /\ IsPow2(a) THEN MustEqual(e, FloorLog2(a)) ELSE MustBeNone(e)
    [] e.op = "a.floor_log2" -> IF SgnOf(a) > 0 THEN MustEqual(e, FloorLog2(a)) ELSE MustBeNone(e)
    [] e.op = "a.ceil_log2" -> IF SgnOf(a) > 0 THEN MustEqual(e, CeilLog2(a)) ELSE MustBeNone(e)
    [] e.op = "a.class" -> ClassRec(e)
    [] e.op = "a.from_int" -> YieldsInt(e, e.a[1])
    [] e.op = "a.from_ratio" -> Yields(e, LAMBDA v : IsRatVal(v, RNorm(e.a[1])))
    [] e.op = "a.lit" -> MustEqual(e, e.a[1])
    [] OTHER -> "unknown operation"
\* what each property speaks about; other events only supply values
Scope == CASE IOEnv.PROP = "A01" -> {"a.add", "a.sub", "a.mul", "a.neg"}
           [] IOEnv.PROP = "A02" -> {"a.div", "a.recip"}
           [] IOEnv.PROP = "A04" -> {"a.cmp", "a.sign", "a.max", "a.min", "a.abs", "a.signum", "a.abs_sub", "a.set", "a.const"}
           [] IOEnv.PROP = "A05" -> {"a.ifloor", "a.iceil", "a.itrunc", "a.floor", "a.ceil", "a.trunc", "a.fract", "a.rem"}
           [] IOEnv.PROP = "A06" -> {"a.pow"}
           [] IOEnv.PROP = "A07" -> {"a.from_int", "a.from_ratio", "a.class", "a.log2", "a.floor_log2", "a.ceil_log2"}
           [] OTHER -> {"a.add", "a.sub", "a.mul", "a.neg", "a.div", "a.recip", "a.pow", "a.rem", "a.max", "a.min", "a.abs", "a.signum",
                        "a.abs_sub", "a.set", "a.const", "a.floor", "a.ceil", "a.trunc", "a.fract", "a.from_int", "a.from_ratio", "a.class", "a.rep"}
Verdict(e) ==
  IF e.op \notin Scope THEN "ok"
  ELSE IF e.out.k \in {"hang", "abort"} THEN "failed on valid input: " \o e.out.k
  ELSE IF \E n \in NumArgs(e) : ~ArgIsNum(e, n) THEN "ok"     \* reported where it was computed
  ELSE Op(e)
Init == TInit
Next == TStep(Verdict)
Spec == Init /\ [][Next]_tvars
=============================================================================
