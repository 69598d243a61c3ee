--------------------------- MODULE TraceInterval ----------------------------
(* Events of the interval operations, judged by Interval.tla.  A record of  *)
(* form {lo, hi, k} is an interval, a pair a ratio, a numeral an integer.   *)
EXTENDS TraceBase, Interval

\* second operand of a mixed operation, as an exact set
Operand(e) == IF e.kind = "I" THEN P(e.a[2])
              ELSE IF IsZ(e.a[2]) THEN <<RInt(e.a[2]), RInt(e.a[2])>>
              ELSE <<RNorm(e.a[2]), RNorm(e.a[2])>>
PrecOf(e) == IF e.kind = "I" THEN MaxN(e.a[1].k, e.a[2].k) ELSE e.a[1].k
Exactly(e, v) == MustBe(e, LAMBDA r : r.lo = v.lo /\ r.hi = v.hi /\ r.k = v.k, "not the tightest enclosure " \o ToString(v))

Div(e) ==
  LET a == e.a[1]  b == Operand(e)  k == PrecOf(e) IN
  IF HasZero(b) THEN MustRefuse(e)
  ELSE IF e.kind # "I" THEN Exactly(e, Tight(SetDiv(P(a), b), k))
  ELSE \* quotient of intervals: computed through the reciprocal, at most as loose as that
       LET loose == Tight(SetMul(P(a), P(Tight(SetInv(b), e.a[2].k))), k) IN
       MustBe(e, LAMBDA v : /\ IsIv(v) /\ v.k = k
                            /\ Within(Tight(SetDiv(P(a), b), k), v) /\ Within(v, loose), "quotient not enclosed")
Pow(e) ==
  LET a == e.a[1]  n == ZInt(e.a[2])  k == a.k
      m == IF n < 0 THEN -n ELSE n
      base == IF n < 0 THEN SetInv(P(a)) ELSE P(a)
      S == SetPow(base, m)
      big == RMax2(RAdd(RMag(base), RInt("1")), RInt("1"))
      \* every multiplication loses less than a unit, magnified by the following ones
      slack == ZMul(Z(4 * m + 4), RCeil(RPow(big, m)))
  IN  IF n < 0 /\ ZeroIn(a) THEN MustRefuse(e)
      ELSE IF n = 0 THEN Exactly(e, Iv(Pow2(k), Pow2(k), k))
      ELSE IF n = 1 THEN Exactly(e, a)
      ELSE MustBe(e, LAMBDA v : Encloses(v, S, k, slack), "power not enclosed")
IsPoint(v) == v.lo = v.hi
\* enclosure of a monotone function whose exact floors and ceilings are known
Sound(e, k, fl, ce, point, slack) ==
  MustBe(e, LAMBDA v : /\ IsIv(v) /\ v.k = k
                       /\ ZCmp(v.lo, fl) <= 0 /\ ZCmp(v.hi, ce) >= 0
                       /\ (point => Bounds(v, k, fl, ce, slack)),
         "values lost or enclosure too wide; exact bounds " \o fl \o " .. " \o ce)
Sqrt(e) ==
  LET a == e.a[1] IN
  IF ZSgn(a.lo) < 0 THEN MustRefuse(e)
  ELSE Exactly(e, Iv(SqrtFloorAt(Lo(a), a.k), SqrtCeilAt(Hi(a), a.k), a.k))
Agm(e) ==
  LET a == e.a[1]  b == e.a[2]  k == MaxN(a.k, b.k)
      \* two points of comparable size (within a factor of 16, not tiny)
      pt == /\ IsPoint(a) /\ IsPoint(b)
            /\ RLe(<<"1", "4">>, Lo(a)) /\ RLe(<<"1", "4">>, Lo(b))
            /\ RLe(Lo(a), RMul(<<"16", "1">>, Lo(b))) /\ RLe(Lo(b), RMul(<<"16", "1">>, Lo(a))) IN
  IF ZSgn(a.lo) < 0 \/ ZSgn(b.lo) < 0 THEN MustRefuse(e)
  ELSE Sound(e, k, AgmFloorAt(Lo(a), Lo(b), k), AgmCeilAt(Hi(a), Hi(b), k), pt, "64")
Log(e) ==
  LET a == e.a[1] IN
  IF ZSgn(a.lo) <= 0 THEN MustRefuse(e)
  ELSE Sound(e, a.k, LnFloorAt(Lo(a), a.k), LnCeilAt(Hi(a), a.k), IsPoint(a), "8")
ExpV(e) ==
  LET a == e.a[1] IN
  Sound(e, a.k, ExpFloorAt(Lo(a), a.k), ExpCeilAt(Hi(a), a.k), IsPoint(a), "8")
ConstOk(v, k, fl) == Bounds(v, k, fl, ZAdd(fl, "1"), "2")
Const(e, fl) == LET k == e.a[1] IN MustBe(e, LAMBDA v : ConstOk(v, k, fl), "constant not enclosed, floor is " \o fl)
\* A shared cache driven through a schedule: e.a[1] the precisions each thread asks for, in order, out.v the
\* steps taken.  Whatever the schedule, every request is answered, with the constant at its precision, and a
\* computation is only asked for at a precision that suffices.  ConstCache.tla is the model of the schedules.
Cache(e) ==
  LET reqs == e.a[1]
      step(s, st) ==
        IF st.why # "ok" THEN st
        ELSE LET t == s.t + 1  n == st.done[t] + 1  open == n <= Len(reqs[t]) IN
        CASE s.e = "compute" -> IF ~open \/ st.busy[t] THEN [st EXCEPT !.why = "computes without a request"]
                                ELSE IF s.k < reqs[t][n] THEN [st EXCEPT !.why = "computes at too low a precision"]
                                ELSE [st EXCEPT !.busy[t] = TRUE]
          [] s.e = "done" -> IF ~open THEN [st EXCEPT !.why = "answer without a request"]
                             ELSE IF s.k # reqs[t][n] \/ ~ConstOk(s.v, s.k, SqrtFloorAt(<<"2", "1">>, s.k))
                                  THEN [st EXCEPT !.why = "wrong answer to the request for precision " \o ToString(reqs[t][n])]
                             ELSE [st EXCEPT !.done[t] = n, !.busy[t] = FALSE]
          [] s.e = "gone" -> IF open THEN [st EXCEPT !.why = "request never answered"] ELSE st
          [] OTHER -> [st EXCEPT !.why = "request ended with " \o s.e]
      fin == FoldSeq(step, [why |-> "ok", done |-> [t \in 1..Len(reqs) |-> 0], busy |-> [t \in 1..Len(reqs) |-> FALSE]], e.out.v)
  IN  IF e.out.k # "ok" THEN "the cache could not be driven: " \o e.out.k
      ELSE IF fin.why # "ok" THEN fin.why
      ELSE Need(\A t \in 1..Len(reqs) : fin.done[t] = Len(reqs[t]), "a request was not answered")

Set(e) ==
  LET a == e.a[1] IN
  CASE e.form = "zero" -> Exactly(e, Iv("0", "0", a.k))
    [] e.form = "one"  -> Exactly(e, Iv(Pow2(a.k), Pow2(a.k), a.k))
    [] e.form = "neg1" -> Exactly(e, Iv(ZNeg(Pow2(a.k)), ZNeg(Pow2(a.k)), a.k))
    [] e.form = "to_lo" -> Exactly(e, Iv(a.lo, a.lo, a.k))
    [] e.form = "to_hi" -> Exactly(e, Iv(a.hi, a.hi, a.k))
    [] e.form = "lo" -> IF ZCmp(e.a[2], a.hi) > 0 THEN MustRefuse(e) ELSE Exactly(e, [a EXCEPT !.lo = e.a[2]])
    [] e.form = "hi" -> IF ZCmp(a.lo, e.a[2]) > 0 THEN MustRefuse(e) ELSE Exactly(e, [a EXCEPT !.hi = e.a[2]])
    [] e.form = "lo0" -> IF ZSgn(a.hi) < 0 THEN MustRefuse(e) ELSE Exactly(e, [a EXCEPT !.lo = "0"])
    [] e.form = "hi0" -> IF ZSgn(a.lo) > 0 THEN MustRefuse(e) ELSE Exactly(e, [a EXCEPT !.hi = "0"])
    [] OTHER -> "unknown form"
Read(e) ==
  LET a == e.a[1]  l == RNorm(Lo(a))  h == RNorm(Hi(a)) IN
  MustBe(e, LAMBDA v : /\ v.range = <<l, h>> /\ v.range2 = <<l, h>> /\ v.lo = l /\ v.hi = h /\ v.ilo = l /\ v.ihi = h
                       /\ v.nlo = a.lo /\ v.nhi = a.hi /\ v.k = a.k /\ v.zero = ZeroIn(a)
                       /\ v.dlo = a.lo /\ v.dhi = a.hi /\ v.dk = a.k
                       /\ v.disp = "[" \o a.lo \o " / 2^" \o ToString(a.k) \o ", " \o a.hi \o " / 2^" \o ToString(a.k) \o "]",
         "accessors disagree with the interval")
\* what each property speaks about; other events only supply values
Arith == {"i.add", "i.sub", "i.mul", "i.div", "i.neg", "i.square", "i.recip", "i.pow"}
Shape == {"i.union", "i.abs", "i.convert", "i.floor", "i.ceil", "i.new", "i.from_ratio_range", "i.from_ratio", "i.from_int", "i.from_int_range",
          "i.from_dyadic", "i.const", "i.set", "i.read", "i.is_same"}
OutOfScope == CASE IOEnv.PROP = "I01" -> Shape [] IOEnv.PROP = "I03" -> Arith [] OTHER -> {}
Verdict(e) ==
  IF e.op \in OutOfScope THEN "ok" ELSE
  LET a == e.a[1]  k == a.k IN
  CASE e.op = "i.add" -> Exactly(e, Tight(SetAdd(P(a), Operand(e)), PrecOf(e)))
    [] e.op = "i.sub" -> Exactly(e, Tight(SetSub(P(a), Operand(e)), PrecOf(e)))
    [] e.op = "i.mul" -> Exactly(e, Tight(SetMul(P(a), Operand(e)), PrecOf(e)))
    [] e.op = "i.div" -> Div(e)
    [] e.op = "i.union" -> Exactly(e, Tight(SetUnion(P(a), P(e.a[2])), MaxN(k, e.a[2].k)))
    [] e.op = "i.neg" -> Exactly(e, Tight(SetNeg(P(a)), k))
    [] e.op = "i.square" -> Exactly(e, Tight(SetPow(P(a), 2), k))
    [] e.op = "i.abs" -> Exactly(e, Tight(SetAbs(P(a)), k))
    [] e.op = "i.recip" -> IF ZeroIn(a) THEN MustRefuse(e) ELSE Exactly(e, Tight(SetInv(P(a)), k))
    [] e.op = "i.pow" -> Pow(e)
    [] e.op = "i.sqrt" -> Sqrt(e)
    [] e.op = "i.agm" -> Agm(e)
    [] e.op = "i.log" -> Log(e)
    [] e.op = "i.exp" -> ExpV(e)
    [] e.op = "i.sqrt_2" -> Const(e, SqrtFloorAt(<<"2", "1">>, a))
    [] e.op = "i.ln_2" -> Const(e, LnFloor("2", "1", a))
    [] e.op = "i.consts" ->
         MustBe(e, LAMBDA v : \A t \in 1..Len(a) : \A n \in 1..Len(a[t]) :
                     ConstOk(v[t][n], a[t][n], IF e.form = "sqrt_2" THEN SqrtFloorAt(<<"2", "1">>, a[t][n]) ELSE LnFloor("2", "1", a[t][n])),
                "not the constant at that precision")
    [] e.op = "x.cache" -> Cache(e)
    [] e.op = "i.convert" -> Exactly(e, Outward(Lo(a), Hi(a), e.a[2]))
    [] e.op = "i.floor" -> Exactly(e, Outward(RInt(RFloor(Lo(a))), RInt(RFloor(Hi(a))), e.a[2]))
    [] e.op = "i.ceil" -> Exactly(e, Outward(RInt(RCeil(Lo(a))), RInt(RCeil(Hi(a))), e.a[2]))
    [] e.op = "i.new" -> IF ZCmp(e.a[1], e.a[2]) > 0 THEN MustRefuse(e) ELSE Exactly(e, Iv(e.a[1], e.a[2], e.a[3]))
    [] e.op = "i.from_ratio_range" ->
         LET l == RNorm(e.a[1])  h == RNorm(e.a[2]) IN
         IF ~RLe(l, h) THEN MustRefuse(e) ELSE Exactly(e, Outward(l, h, e.a[3]))
    [] e.op = "i.from_ratio" -> Exactly(e, Outward(RNorm(e.a[1]), RNorm(e.a[1]), e.a[2]))
    [] e.op = "i.from_int" -> Exactly(e, Outward(RInt(e.a[1]), RInt(e.a[1]), e.a[2]))
    [] e.op = "i.from_int_range" -> IF ZCmp(e.a[1], e.a[2]) > 0 THEN MustRefuse(e) ELSE Exactly(e, Outward(RInt(e.a[1]), RInt(e.a[2]), e.a[3]))
    [] e.op = "i.from_dyadic" -> Exactly(e, Iv(e.a[1], e.a[1], e.a[2]))
    [] e.op = "i.const" ->
         LET c == IF e.form = "zero" THEN "0" ELSE IF e.form = "one" THEN Pow2(e.a[1]) ELSE ZNeg(Pow2(e.a[1])) IN Exactly(e, Iv(c, c, e.a[1]))
    [] e.op = "i.set" -> Set(e)
    [] e.op = "i.read" -> Read(e)
    [] e.op = "i.is_same" -> MustEqual(e, a = e.a[2])
    [] e.op = "i.lit" -> Exactly(e, a)
    [] OTHER -> "unknown operation"
Init == TInit
Next == TStep(Verdict)
Spec == Init /\ [][Next]_tvars
=============================================================================
