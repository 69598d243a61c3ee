----------------------------- MODULE TracePoly ------------------------------
(* Events of the polynomial operations, judged by Poly.tla.                 *)
EXTENDS TraceBase, Poly
DivForms == {"mm", "mr", "rm", "rr", "am", "ar", "emm", "emr", "erm", "err", "eam", "ear", "cmm", "cmr", "crm", "crr", "cam", "car", "ck", "c"}

\* the operation had to refuse; a failed assigning form leaves its operand as it was
Refuse(e, Reading(_)) ==
  IF e.form \in CheckedAssign
  THEN (IF e.out.k # "err" THEN "should have reported failure, got " \o e.out.k
        ELSE IF Reading(e.out.v) = Reading(e.a[1]) THEN "ok" ELSE "failed operation changed its operand")
  ELSE MustRefuse(e)
RRefuse(e, R) == Refuse(e, LAMBDA v : In(R, v))
YRefuse(e) == Refuse(e, YIn)
\* ---- every kind of coefficient
Pseudo(e, R, a, b) ==
  IF IsZeroP(b) THEN RRefuse(e, R)
  ELSE LET k == IF Deg(a) < Deg(b) THEN 0 ELSE Deg(a) - Deg(b) + 1
           f == PowP(R, LcP(R, b), k)
       IN  MustBe(e, LAMBDA v :
             LET q == In(R, v.q)  r == In(R, v.r) IN
             /\ v.q = Out(R, q) /\ v.r = Out(R, r) /\ v.f = ScalarOut(R, f)
             /\ Deg(r) < Deg(b)
             /\ AddP(R, MulP(R, q, b), r) = MulP(R, a, f), "pseudo-division identity")
PseudoRemZero(R, a, b) ==    \* is the pseudo-remainder zero
  IF R.kind \in KR THEN FALSE ELSE DividesF(FieldOf(R), Canon(FieldOf(R), b.n, b.d), Canon(FieldOf(R), a.n, a.d))
ExactPseudo(e, R, a, b) ==
  IF IsZeroP(b) \/ ~PseudoRemZero(R, a, b) THEN RRefuse(e, R)
  ELSE LET k == IF Deg(a) < Deg(b) THEN 0 ELSE Deg(a) - Deg(b) + 1
           f == PowP(R, LcP(R, b), k)
       IN  MustBe(e, LAMBDA v : LET q == In(R, v.q) IN
             v.q = Out(R, q) /\ v.f = ScalarOut(R, f) /\ MulP(R, q, b) = MulP(R, a, f), "exact pseudo-division identity")
Access(e, R, a) ==
  LET n == Len(a.n)
      cs == [j \in 1..n |-> CoefOut(R, a, j - 1)]
      mix == [j \in 1..n |-> IF j % 2 = 1 THEN cs[(j + 1) \div 2] ELSE cs[n + 1 - (j \div 2)]]
  IN  MustBe(e, LAMBDA v :
        /\ v.len = n /\ v.empty = (n = 0) /\ v.degree = n - 1 /\ v.zero = (n = 0) /\ v.one = (a = OneP(R))
        /\ v.coefs = cs /\ v.iter = cs /\ v.into_iter = cs /\ v.ref_iter = cs /\ v.rev = Reverse(cs)
        /\ v.mixed = mix /\ v.mixed2 = mix /\ v.lens = [j \in 1..(n+1) |-> n + 1 - j]
        /\ v.at = [j \in 1..(n+2) |-> IF j <= n THEN cs[j] ELSE "none"]
        /\ v.lead = (IF n = 0 THEN "none" ELSE cs[n])
        /\ v.collect = Out(R, a) /\ v.slice = Out(R, a), "accessors disagree with the polynomial")
ToOne(e, R, a) ==
  IF ~IsZeroP(a) THEN MustEqual(e, Out(R, OneP(R)))
  ELSE IF e.form \in {"m", "a"} THEN Need(e.out.k = "err" /\ e.out.v = Out(R, a), "zero has no one")
  ELSE Need(e.out.k = "none", "zero has no one")
\* the interface of a coefficient: its element over its divisor, neutral elements, multiples and powers
\* CS: the coefficients, S their text, El and Dv element and divisor of the first
CoefOk(v, c, el, dv, zero, one, neg, times, powE, powC, powD, cs, red, rd, depth) ==
  /\ v.isz = <<c = zero, c = zero>> /\ v.iso = <<el = one, c = one>>
  /\ v.zeros = [j \in 1..8 |-> zero] /\ v.ones = [j \in 1..8 |-> one] /\ v.times = [j \in 1..3 |-> times]
  /\ v.el = el /\ v.neg = neg /\ v.div = dv /\ v.pow = <<powE, powC, powD>>
  /\ v.back = cs /\ v.red = red /\ v.red2 = red /\ v.rd = rd /\ v.rd2 = rd /\ v.depth = depth
Coef(e, R) ==
  LET cs == [j \in 1..Len(e.a[1]) |-> ScalarIn(R, e.a[1][j])]
      c == cs[1]  n == ZInt(e.a[2])
      el == IF R.kind \in KQ THEN Canon(R, c.n, "1") ELSE c
      dv == Const(R, c.d)
      p == In(R, e.a[1])                 \* all of them over their least common divisor
      S(x) == ScalarOut(R, x)
  IN  MustBe(e, LAMBDA v : CoefOk(v, S(c), S(el), S(dv), S(Zero(R)), S(OneP(R)), S(NegP(R, el)), S(MulP(R, el, Const(R, e.a[3]))),
                S(PowP(R, el, n)), S(PowP(R, c, n)), S(PowP(R, dv, n)), [j \in 1..Len(cs) |-> S(cs[j])],
                [j \in 1..Len(cs) |-> S(Const(R, PCoef(p.n, j - 1)))], S(Const(R, p.d)), 0), "coefficient interface")
YCoefV(e) ==
  LET cs == [j \in 1..Len(e.a[1]) |-> PNorm(e.a[1][j])]
      c == cs[1]
      pow == FoldSeq(LAMBDA x, acc : PMul(acc, c), <<"1">>, [j \in 1..ZInt(e.a[2]) |-> j])
  IN  MustBe(e, LAMBDA v : CoefOk(v, c, c, <<"1">>, <<>>, <<"1">>, PNeg(c), PNorm(PScale(c, e.a[3])), pow, pow, <<"1">>, cs, cs, <<"1">>, 1),
             "coefficient interface")
Make(e, R) ==
  CASE e.form \in {"scalar", "scalar_ref"} -> MustEqual(e, Out(R, ScalarIn(R, e.a[1])))
    [] e.form \in {"default", "zero", "set_zero"} -> MustEqual(e, Out(R, Zero(R)))
    [] OTHER -> MustEqual(e, Out(R, In(R, e.a[1])))
\* ---- exact division
ExactDiv(e, R, a, b) ==
  IF IsZeroP(b) THEN RRefuse(e, R)
  ELSE LET F == FieldOf(R)
           d == DivRemF(F, Canon(F, a.n, a.d), Canon(F, b.n, b.d))
       IN  IF ~IsZeroP(d.r) \/ (R.kind \in KZ /\ d.q.d # "1") THEN RRefuse(e, R)
           ELSE MustEqual(e, Out(R, d.q))
ExactDivC(e, R, a, c) ==
  IF IsZeroP(c) \/ ~DivisibleC(R, a, c) THEN (IF IsZeroP(a) THEN "ok" ELSE RRefuse(e, R))
  ELSE MustEqual(e, Out(R, DivC(R, a, c)))
DivRem(e, R, a, b) ==
  IF IsZeroP(b) THEN RRefuse(e, R)
  ELSE LET F == FieldOf(R)
           d == DivRemF(F, Canon(F, a.n, a.d), Canon(F, b.n, b.d))
       IN  IF R.kind \in KZ /\ d.q.d # "1" THEN RRefuse(e, R)
           ELSE MustEqual(e, [q |-> Out(R, d.q), r |-> Out(R, d.r)])
Monic(e, R, a) ==
  IF IsZeroP(a) THEN MustEqual(e, Out(R, a))
  ELSE IF ~DivisibleC(R, a, LcP(R, a)) THEN RRefuse(e, R)
  ELSE MustEqual(e, Out(R, DivC(R, a, LcP(R, a))))
SubGcd(e, R, a, b) ==
  LET F == FieldOf(R) IN
  MustBe(e, LAMBDA v : LET g == In(R, v) IN
    /\ v = Out(R, g)
    /\ MonicF(F, Canon(F, g.n, g.d)) = GcdF(F, Canon(F, a.n, a.d), Canon(F, b.n, b.d)), "not a greatest common divisor")
Resultant(e, R, a, b) ==
  LET r == ResP(R, a, b) IN
  IF e.op = "p.nz_resultant" /\ IsZeroP(r)
  THEN (IF e.out.k = "none" THEN "ok" ELSE IF e.out.k = "ok" /\ e.out.v = ScalarOut(R, r) THEN "ok" ELSE "resultant is zero")
  ELSE MustEqual(e, ScalarOut(R, r))
\* absent for the zero polynomial in the forms that say so
Absent(e, R, a, v) == IF e.form = "nz" /\ IsZeroP(a) THEN Need(e.out.k = "none", "zero polynomial") ELSE MustEqual(e, ScalarOut(R, v))
\* ---- Sturm chains: members after the second are minus the remainder of the two before,
\* all up to positive factors; zero only at the end
Sturm(e, R, a) ==
  LET F == FieldOf(R)
      f(x) == Canon(F, x.n, x.d)
  IN  MustBe(e, LAMBDA v :
        LET s == [j \in 1..Len(v) |-> In(R, v[j])]
            L == LET nz == {j \in 1..Len(s) : ~IsZeroP(s[j])} IN IF nz = {} THEN 0 ELSE Max(nz)
            pts == [j \in 1..11 |-> <<Z(5 * j - 30 + (j % 3)), "3">>]
            var(q) == LET sg == SelectSeq([j \in 1..L |-> PSgnAt(s[j].n, q[1], q[2])], LAMBDA x : x # 0)
                      IN  Cardinality({j \in 1..(Len(sg) - 1) : sg[j] # sg[j+1]})
        IN /\ \A j \in 1..Len(v) : v[j] = Out(R, s[j])
           /\ \A j \in 1..L : ~IsZeroP(s[j])
           /\ IF IsZeroP(a) THEN L = 0
              ELSE IF Deg(a) = 0 THEN L = 1 /\ PosMultiple(s[1], a)
              ELSE /\ L >= 2 /\ PosMultiple(s[1], a) /\ PosMultiple(s[2], DerivP(R, a))
                   /\ \A j \in 3..L : LET r == NegP(F, DivRemF(F, f(s[j-2]), f(s[j-1])).r) IN ~IsZeroP(r) /\ PosMultiple(s[j], r)
                   /\ IsZeroP(DivRemF(F, f(s[L-1]), f(s[L])).r)
                   \* what it is for
                   /\ \A j \in 1..11 : PSgnAt(a.n, pts[j][1], pts[j][2]) = 0
                        \/ \A k \in (j+1)..11 : PSgnAt(a.n, pts[k][1], pts[k][2]) = 0
                             \/ var(pts[j]) - var(pts[k]) = PCountHalfOpen(a.n, pts[j][1], pts[j][2], pts[k][1], pts[k][2]),
        "not a Sturm chain")
\* ---- factorizations
Product(R, c, fs) == FoldSeq(LAMBDA x, acc : MulP(R, acc, PowP(R, x.p, x.e)), c, fs)
Yun(e, R, a) ==
  MustBe(e, LAMBDA v :
    LET fs == [j \in 1..Len(v.f) |-> [p |-> In(R, v.f[j]), e |-> j]]
        c == ScalarIn(R, v.c)
    IN  /\ \A j \in 1..Len(fs) : v.f[j] = Out(R, fs[j].p)
        /\ \A j \in 1..Len(fs) : ~IsZeroP(fs[j].p) /\ Deg(GcdF(R, fs[j].p, DerivP(R, fs[j].p))) <= 0
        /\ \A j, k \in 1..Len(fs) : j < k => Deg(GcdF(R, fs[j].p, fs[k].p)) <= 0
        /\ Product(R, c, fs) = a, "not the square-free factorization")
Factor(e, R, a) ==
  MustBe(e, LAMBDA v :
    LET fs == [j \in 1..Len(v.f) |-> [p |-> In(R, v.f[j].p), e |-> v.f[j].e]]
        c == ScalarIn(R, v.c)
    IN  /\ \A j \in 1..Len(fs) : v.f[j].p = Out(R, fs[j].p)
        /\ \A j \in 1..Len(fs) : /\ fs[j].e >= 1 /\ Deg(fs[j].p) >= 1
                                 /\ PPrim(fs[j].p.n) = fs[j].p.n           \* primitive, positive leading coefficient
        /\ \A j, k \in 1..Len(fs) : j < k => fs[j].p # fs[k].p
        /\ Product(R, c, fs) = a
        /\ \A j \in 1..Len(fs) : PIrreducible(fs[j].p.n), "not the factorization into irreducible factors")
\* ---- fields
Bezout(e, R, a, b) ==
  LET g == GcdF(R, a, b) IN
  MustBe(e, LAMBDA v :
    LET x == In(R, v.x)  y == In(R, v.y) IN
    /\ v.gcd = Out(R, g) /\ v.x = Out(R, x) /\ v.y = Out(R, y)
    /\ AddP(R, MulP(R, x, a), MulP(R, y, b)) = g
    /\ (e.form = "lcm" => MulP(R, In(R, v.lcm), g) = MulP(R, a, b) /\ v.lcm = Out(R, In(R, v.lcm))
                          /\ (IsZeroP(g) => IsZeroP(In(R, v.lcm)))), "Bezout identity")
LcmOk(R, v, g, a, b) == /\ v = Out(R, In(R, v))
                        /\ IF IsZeroP(g) THEN IsZeroP(In(R, v)) ELSE MulP(R, In(R, v), g) = MulP(R, a, b)
PowMod(e, R, a, n, mo) ==
  LET red(x) == DivRemF(R, x, mo).r
      \* binary expansion of n, most significant bit first
      nb == ZBits(n)
      bit(j) == ZMod(ZShl(n, -j), "2")
      r == FoldSeq(LAMBDA j, acc : LET s == red(MulP(R, acc, acc)) IN IF bit(j) = "1" THEN red(MulP(R, s, a)) ELSE s,
                   red(OneP(R)), [j \in 1..nb |-> nb - j])
  IN  IF ZSgn(n) < 0 \/ IsZeroP(mo) THEN RRefuse(e, R)
      \* the coefficient ring of the zero polynomial is not known to it, so it has no one
      ELSE IF n = "0" /\ IsZeroP(a) THEN RRefuse(e, R)
      ELSE MustEqual(e, Out(R, r))
\* ---- text: an expression over X and Y, read back.  Values are pairs [n, d] with Y standing for X^64
RQ == [kind |-> "Q", m |-> "0"]
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(t, i0) == IF i0 <= Len(t) THEN SubSeq(t, i0, i0) ELSE ""
RECURSIVE Spaces(_, _), Number(_, _), Expr(_, _), ExprRest(_, _), Term(_, _), TermRest(_, _), Atom(_, _)
Spaces(t, i0) == IF Ch(t, i0) = " " THEN Spaces(t, i0 + 1) ELSE i0
Number(t, i0) == IF Ch(t, i0) \in Digits THEN Number(t, i0 + 1) ELSE i0       \* end of the digits from i0
Fail(i0) == [ok |-> FALSE, at |-> i0, v |-> Zero(RQ)]
Got(i0, v) == [ok |-> TRUE, at |-> i0, v |-> v]
Atom(t, i00) ==
  LET i0 == Spaces(t, i00)  c == Ch(t, i0) IN
  IF c = "(" THEN LET x == Expr(t, i0 + 1)  j == Spaces(t, x.at) IN IF x.ok /\ Ch(t, j) = ")" THEN Got(j + 1, x.v) ELSE Fail(i0)
  ELSE IF c = "-" THEN LET x == Atom(t, i0 + 1) IN IF x.ok THEN Got(x.at, NegP(RQ, x.v)) ELSE x
  ELSE IF c \in {"X", "Y"}
       THEN LET e0 == IF c = "X" THEN 1 ELSE 64
                j == IF Ch(t, i0 + 1) = "^" THEN Number(t, i0 + 2) ELSE i0 + 1
                p == IF Ch(t, i0 + 1) = "^" THEN (IF j > i0 + 2 THEN ZInt(SubSeq(t, i0 + 2, j - 1)) ELSE -1) ELSE 1
            IN  IF p < 0 THEN Fail(i0) ELSE Got(j, Canon(RQ, PShift(<<"1">>, e0 * p), "1"))
  ELSE IF c \in Digits
       THEN LET j == Number(t, i0) IN Got(j, Canon(RQ, <<SubSeq(t, i0, j - 1)>>, "1"))
  ELSE Fail(i0)
TermRest(t, x) ==
  IF ~x.ok THEN x
  ELSE LET j == Spaces(t, x.at) IN
       IF Ch(t, j) = "*" THEN LET y == Atom(t, j + 1) IN IF y.ok THEN TermRest(t, Got(y.at, MulP(RQ, x.v, y.v))) ELSE y
       ELSE IF Ch(t, j) = "/" THEN LET y == Atom(t, j + 1) IN
                 IF y.ok /\ Deg(y.v) = 0 THEN TermRest(t, Got(y.at, DivC(RQ, x.v, y.v))) ELSE Fail(j)
       ELSE x
Term(t, i0) == TermRest(t, Atom(t, i0))
ExprRest(t, x) ==
  IF ~x.ok THEN x
  ELSE LET j == Spaces(t, x.at) IN
       IF Ch(t, j) = "+" THEN LET y == Term(t, j + 1) IN IF y.ok THEN ExprRest(t, Got(y.at, AddP(RQ, x.v, y.v))) ELSE y
       ELSE IF Ch(t, j) = "-" THEN LET y == Term(t, j + 1) IN IF y.ok THEN ExprRest(t, Got(y.at, SubP(RQ, x.v, y.v))) ELSE y
       ELSE x
Expr(t, i0) == ExprRest(t, Term(t, i0))
Reads(t, v) == LET x == Expr(t, 1) IN x.ok /\ Spaces(t, x.at) = Len(t) + 1 /\ x.v = v
Display(e, v) == MustBe(e, LAMBDA t : Reads(t, v), "the text does not denote the polynomial")
\* ---- conversion to machine integers
Fits(v, lo, hi) == ZCmp(lo, v) <= 0 /\ ZCmp(v, hi) <= 0
ToPrim(e, a) ==
  LET c == IF IsZeroP(a) THEN "0" ELSE a.n[1]
      S(b) == IF Deg(a) <= 0 /\ Fits(c, ZNeg(Pow2(b - 1)), ZSub(Pow2(b - 1), "1")) THEN c ELSE "none"
      U(b) == IF Deg(a) <= 0 /\ Fits(c, "0", ZSub(Pow2(b), "1")) THEN c ELSE "none"
      \* an integer every float of that precision can hold
      F(b, v) == IF Deg(a) > 0 THEN v = "none" ELSE (ZCmp(ZAbs(c), Pow2(b)) > 0 \/ v = c)
  IN  MustBe(e, LAMBDA v :
        /\ v.i8 = S(8) /\ v.i16 = S(16) /\ v.i32 = S(32) /\ v.i64 = S(64) /\ v.i128 = S(128) /\ v.isize = S(64)
        /\ v.u8 = U(8) /\ v.u16 = U(16) /\ v.u32 = U(32) /\ v.u64 = U(64) /\ v.u128 = U(128) /\ v.usize = U(64)
        /\ F(24, v.f32) /\ F(53, v.f64), "not the constant of the polynomial")
\* equal values: equal hashes
EqHash(e, same) == MustBe(e, LAMBDA v : v.eq = same /\ v.ne = ~same /\ (same => v.hash), "wrong equality or hash")
\* ---- names of the variables of nested polynomials: all different, and none is read as a number or an operator
Names(e) ==
  MustBe(e, LAMBDA v :
    /\ Len(v) = e.a[2] - e.a[1]
    /\ Cardinality({v[j] : j \in 1..Len(v)}) = Len(v)
    /\ \A j \in 1..Len(v) : v[j] # "" /\ \A k \in 1..Len(v[j]) : Ch(v[j], k) \notin Digits \cup {" ", "+", "-", "*", "/", "^", "(", ")"}, "not names")
\* a factor: the polynomial in parentheses and its power
FactorText(e, v) ==
  MustBe(e, LAMBDA t :
    LET x == Atom(t, 1) IN
    /\ Ch(t, 1) = "(" /\ x.ok /\ x.v = v
    /\ Ch(t, x.at) = "^" /\ SubSeq(t, x.at + 1, Len(t)) = Z(e.a[2]), "the text does not denote the factor")

\* ---- polynomials over polynomials
YVerdict(e) ==
  LET a == YIn(e.a[1])  b == YIn(e.a[2])  c == PNorm(e.a[2]) IN
  CASE e.op = "p.add" -> MustEqual(e, IF e.form = "self" THEN YAdd(a, a) ELSE YAdd(a, b))
    [] e.op = "p.sub" -> MustEqual(e, IF e.form = "self" THEN <<>> ELSE YSub(a, b))
    [] e.op = "p.mul" -> MustEqual(e, IF e.form = "self" THEN YMul(a, a) ELSE YMul(a, b))
    [] e.op = "p.adds" -> MustEqual(e, YAdd(a, YMono(c, 0)))
    [] e.op = "p.subs" -> MustEqual(e, YSub(a, YMono(c, 0)))
    [] e.op = "p.muls" -> MustEqual(e, YScale(a, c))
    [] e.op = "p.neg" -> MustEqual(e, YNeg(a))
    [] e.op = "p.eq" -> EqHash(e, a = b)
    [] e.op = "p.hash" -> EqHash(e, TRUE)
    [] e.op = "p.pow" -> MustEqual(e, YPow(a, ZInt(e.a[2])))
    [] e.op = "p.derivative" -> MustEqual(e, YDeriv(a))
    [] e.op = "p.eval" -> MustEqual(e, YEval(a, c))
    [] e.op = "p.monomial" -> MustEqual(e, YMono(PNorm(e.a[1]), e.a[2]))
    [] e.op = "p.make" -> MustEqual(e, IF e.form \in {"scalar", "scalar_ref"} THEN YMono(PNorm(e.a[1]), 0) ELSE a)
    [] e.op = "p.coef" -> YCoefV(e)
    [] e.op = "p.pseudo" ->
         IF b = <<>> THEN YRefuse(e)
         ELSE LET s == YPseudo(a, b) IN MustEqual(e, [q |-> s.quo, r |-> s.r, f |-> s.f])
    [] e.op = "p.exact_div" ->
         IF b = <<>> THEN YRefuse(e)
         ELSE IF ~YDivides(b, a) THEN YRefuse(e)
         ELSE MustBe(e, LAMBDA v : YIn(v) = v /\ YMul(v, b) = a, "not the quotient")
    [] e.op = "p.exact_divs" ->
         IF c = <<>> THEN (IF a = <<>> THEN "ok" ELSE YRefuse(e))
         ELSE IF ~YDividesC(c, a) THEN YRefuse(e)
         ELSE MustBe(e, LAMBDA v : YIn(v) = v /\ YScale(v, c) = a, "not the quotient")
    [] e.op \in {"p.resultant", "p.nz_resultant"} ->
         IF e.op = "p.nz_resultant" /\ e.out.k = "none" THEN Need(YIsRes(<<>>, a, b), "the resultant is not zero")
         ELSE MustBe(e, LAMBDA v : PIsNorm(v) /\ YIsRes(v, a, b), "not the Sylvester determinant")
    [] e.op = "p.display" ->
         Display(e, Canon(RQ, FoldSeq(LAMBDA j, acc : PAdd(acc, PShift(a[j], 64 * (j - 1))), <<>>, [j \in 1..Len(a) |-> j]), "1"))
    [] OTHER -> "unknown operation"
XVerdict(e) ==
  LET R == RingOf(e)
      a == In(R, e.a[1])  b == In(R, e.a[2])  c == ScalarIn(R, e.a[2])
      ok(p) == MustEqual(e, Out(R, p))
  IN
  CASE e.op = "p.add" -> ok(IF e.form = "self" THEN AddP(R, a, a) ELSE AddP(R, a, b))
    [] e.op = "p.sub" -> ok(IF e.form = "self" THEN Zero(R) ELSE SubP(R, a, b))
    [] e.op = "p.mul" -> ok(IF e.form = "self" THEN MulP(R, a, a) ELSE MulP(R, a, b))
    [] e.op = "p.adds" -> ok(AddP(R, a, c))
    [] e.op = "p.subs" -> ok(SubP(R, a, c))
    [] e.op = "p.muls" -> ok(MulP(R, a, c))
    [] e.op = "p.neg" -> ok(NegP(R, a))
    [] e.op = "p.eq" -> EqHash(e, a = b)
    [] e.op = "p.hash" -> EqHash(e, TRUE)
    [] e.op = "p.pow" -> LET n == ZInt(e.a[2]) IN
                         IF n < 0 THEN RRefuse(e, R) ELSE IF n = 0 /\ IsZeroP(a) THEN "ok" ELSE ok(PowP(R, a, n))
    [] e.op = "p.derivative" -> ok(DerivP(R, a))
    [] e.op = "p.eval" -> MustEqual(e, ScalarOut(R, EvalP(R, a, c)))
    [] e.op = "p.monomial" -> ok(ShiftP(R, ScalarIn(R, e.a[1]), e.a[2]))
    [] e.op = "p.access" -> Access(e, R, a)
    [] e.op = "p.to_one" -> ToOne(e, R, a)
    [] e.op = "p.make" -> Make(e, R)
    [] e.op = "p.coef" -> Coef(e, R)
    [] e.op = "p.from_raw" -> ok(Canon(R, e.a[1], e.a[2]))
    [] e.op = "p.pseudo" -> Pseudo(e, R, a, b)
    [] e.op = "p.exact_pseudo" -> ExactPseudo(e, R, a, b)
    [] e.op = "p.exact_div" -> ExactDiv(e, R, a, b)
    [] e.op = "p.exact_divs" -> ExactDivC(e, R, a, c)
    [] e.op = "p.div_rem" -> DivRem(e, R, a, b)
    [] e.op = "p.monic" -> Monic(e, R, a)
    [] e.op = "p.subresultant_gcd" -> SubGcd(e, R, a, b)
    [] e.op \in {"p.resultant", "p.nz_resultant"} -> Resultant(e, R, a, b)
    [] e.op = "p.content" -> Absent(e, R, a, ContentP(R, a))
    [] e.op = "p.primitive" -> ok(PrimP(R, a))
    [] e.op = "p.max_norm" -> Absent(e, R, a, MaxNormP(R, a))
    [] e.op = "p.manhattan" -> Absent(e, R, a, SumNormP(R, a))
    [] e.op \in {"p.psturm", "p.sturm"} -> Sturm(e, R, a)
    [] e.op = "p.coefficient" ->
         MustEqual(e, [at |-> [j \in 1..(Len(a.n) + 2) |-> CoefOut(R, a, j - 1)], lead |-> CoefOut(R, a, IF Deg(a) < 0 THEN 0 ELSE Deg(a))])
    [] e.op = "p.one" -> IF e.form = "is" THEN MustEqual(e, a = OneP(R)) ELSE ok(OneP(R))
    [] e.op = "p.display" -> Display(e, Canon(RQ, a.n, a.d))
    [] e.op = "p.div" -> IF IsZeroP(b) THEN RRefuse(e, R) ELSE ok(DivRemF(R, a, b).q)
    [] e.op = "p.rem" -> IF IsZeroP(b) THEN RRefuse(e, R) ELSE ok(DivRemF(R, a, b).r)
    [] e.op = "p.powmod" -> PowMod(e, R, a, e.a[2], In(R, e.a[3]))
    [] e.op = "p.gcd" -> ok(GcdF(R, a, b))
    [] e.op = "p.lcm" -> MustBe(e, LAMBDA v : LcmOk(R, v, GcdF(R, a, b), a, b), "not the least common multiple")
    [] e.op = "p.gcd_lcm" -> LET g == GcdF(R, a, b) IN
                             MustBe(e, LAMBDA v : v.gcd = Out(R, g) /\ LcmOk(R, v.lcm, g, a, b), "not gcd and lcm")
    [] e.op = "p.egcd" -> Bezout(e, R, a, b)
    \* what the polynomial is divided by to reach its canonical associate:
    \* monic over a field; primitive with a positive leading coefficient over the integers
    [] e.op = "p.reducing_factor" -> IF IsZeroP(a) /\ e.form /= "z" THEN Need(e.out.k = "none", "zero polynomial")
                                     ELSE MustEqual(e, ScalarOut(R, ReducingP(R, a)))
    [] e.op = "p.reduce" -> ok(ReduceP(R, a))
    [] e.op = "p.is_square_free" -> MustEqual(e, Deg(GcdF(R, a, DerivP(R, a))) <= 0)
    [] e.op = "p.yun" -> Yun(e, R, a)
    [] e.op = "p.factor" -> Factor(e, R, a)
    [] e.op = "p.to_prim" -> ToPrim(e, a)
    [] e.op = "p.eval_at" -> LET w == Canon(RQ, a.n, "1")  q == e.a[2] IN MustEqual(e, ScalarOut(RQ, EvalP(RQ, w, ScalarIn(RQ, q))))
    [] e.op = "p.names" -> Names(e)
    [] e.op = "p.factor_text" -> FactorText(e, Canon(RQ, a.n, a.d))
    [] e.op = "p.from_prim" -> ok(Const(R, e.a[1]))
    [] OTHER -> "unknown operation"
Verdict(e) == IF e.kind = "ZZ" THEN YVerdict(e) ELSE XVerdict(e)
Init == TInit
Next == TStep(Verdict)
Spec == Init /\ [][Next]_tvars
=============================================================================
