----------------------------- MODULE TraceQuad ------------------------------
(* Events of the quadratic numbers.                                         *)
EXTENDS TraceBase, Quadratic
Query(e) == LET t == e.a[1]  s == QSgn(t)  rat == t[3] = "0" IN
  MustEqual(e, [pos |-> s > 0, neg |-> s < 0, zero |-> s = 0, one |-> t = <<"-1", "1", "0">>,
                is_ratio |-> rat, is_integer |-> rat /\ t[2] = "1",
                integer |-> IF rat /\ t[2] = "1" THEN ZNeg(t[1]) ELSE "none",
                ratio |-> LET q == IF rat THEN <<ZNeg(t[1]), t[2]>> ELSE <<>> IN <<q, q>>,
                terms |-> <<t, t>>])
Cmp(e) == LET c == QCmp(e.a[1], e.a[2]) IN
  MustBe(e, LAMBDA o : /\ o.cmp = c /\ o.pcmp = c /\ o.eq = (c = 0) /\ o.lt = (c < 0) /\ o.le = (c <= 0)
                       /\ o.gt = (c > 0) /\ o.ge = (c >= 0) /\ (c = 0 => o.hash), "wrong order, it is " \o ToString(c))
CmpRatio(e) == LET c == QCmp(e.a[1], QOfRatio(e.a[2])) IN
  MustEqual(e, [cmp |-> c, rcmp |-> -c, eq |-> c = 0, req |-> c = 0, lt |-> c < 0, rlt |-> c > 0])
\* trailing zero coefficients are dropped
PolyOf(t) == IF t[3] # "0" THEN t ELSE IF t[2] # "0" THEN <<t[1], t[2]>> ELSE IF t[1] # "0" THEN <<t[1]>> ELSE <<>>
Verdict(e) ==
  CASE e.op = "q.new" -> IF QExists(e.a[1]) THEN MustEqual(e, QCanon(e.a[1])) ELSE MustRefuse(e)
    [] e.op \in {"q.default", "q.zero"} -> MustEqual(e, <<"0", "1", "0">>)
    [] e.op = "q.one" -> MustEqual(e, <<"-1", "1", "0">>)
    [] e.op \in {"q.from_integer", "q.from_int"} -> MustEqual(e, QOfRatio(<<e.a[1], "1">>))
    [] e.op \in {"q.from_ratio", "q.from_ratio_kind"} -> IF e.a[2] = "0" THEN MustRefuse(e) ELSE MustEqual(e, QOfRatio(<<e.a[1], e.a[2]>>))
    [] e.op = "q.poly" -> LET n == QNegTerms(e.a[1]) IN
                          MustEqual(e, [disc |-> QDisc(e.a[1]), swap |-> <<n, n, n>>, poly |-> PolyOf(e.a[1])])
    [] e.op = "q.neg" -> MustEqual(e, QNeg(e.a[1]))
    [] e.op = "q.abs" -> MustEqual(e, QAbs(e.a[1]))
    [] e.op = "q.signum" -> MustEqual(e, QOfRatio(<<Z(QSgn(e.a[1])), "1">>))
    [] e.op = "q.recip" -> IF e.a[1][3] # "0" THEN "ok"        \* not offered
                           ELSE IF e.a[1][1] = "0" THEN MustRefuse(e)
                           ELSE MustEqual(e, QOfRatio(<<e.a[1][2], ZNeg(e.a[1][1])>>))
    [] e.op = "q.add" -> IF QSummable(e.a[1], e.a[2]) THEN MustEqual(e, QSum(e.a[1], e.a[2])) ELSE "ok"
    [] e.op = "q.sub" -> IF QSummable(e.a[1], e.a[2]) THEN MustEqual(e, QSum(e.a[1], QNeg(e.a[2]))) ELSE "ok"
    [] e.op = "q.query" -> Query(e)
    [] e.op = "q.cmp" -> Cmp(e)
    [] e.op = "q.cmp_ratio" -> CmpRatio(e)
    [] OTHER -> "unknown operation"
Init == TInit
Next == TStep(Verdict)
Spec == Init /\ [][Next]_tvars
=============================================================================
