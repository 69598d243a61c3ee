----------------------------- MODULE RootSelect -----------------------------
(***************************************************************************)
(* How the crate computes with algebraic numbers, as a state machine       *)
(* (algebraic_numbers.rs: RootSelector::select_root and                    *)
(* IntervalShrinker::shrink).                                              *)
(*                                                                         *)
(* The result of an operation is a root of the result polynomial, a        *)
(* resultant; the machine keeps intervals around the operands, combines    *)
(* them into an interval that contains the result, and shrinks them until  *)
(* no other root of the result polynomial is left in the combined one.     *)
(*                                                                         *)
(* CountRoots chooses how roots of the result polynomial are counted: in   *)
(* the closed interval, or ("halfopen") ignoring one at the lower bound,   *)
(* as the crate did before it was repaired; TLC refutes the latter.        *)
(***************************************************************************)
EXTENDS Algebraic, Interval
CONSTANTS Numbers, Operations, CountRoots
VARIABLES op, a, b,      \* the operation and its operands
          ia, ib,        \* the current intervals around the operands
          phase          \* "look", "done"
vars == <<op, a, b, ia, ib, phase>>

\* ---- result polynomials, by interpolation of univariate resultants at 0, 1, .., n
Factorial(n) == FoldSeq(LAMBDA j, acc : ZMul(acc, Z(j)), "1", [j \in 1..n |-> j])
Falling(n) == FoldSeq(LAMBDA j, acc : PMul(acc, <<Z(1 - j), "1">>), <<"1">>, [j \in 1..n |-> j])   \* x(x-1)..(x-n+1)
Interpolate(f(_), n) ==      \* a positive multiple of the polynomial of degree <= n through (x, f(x)), x = 0..n
  LET diff(s) == [j \in 1..(Len(s) - 1) |-> ZSub(s[j + 1], s[j])]
      step(j, st) == [s |-> diff(st.s), p |-> PAdd(st.p, PScale(Falling(j), ZMul(st.s[1], ZDiv(Factorial(n), Factorial(j)))))]
  IN  FoldSeq(step, [s |-> [x \in 1..(n + 1) |-> f(x - 1)], p |-> <<>>], [j \in 1..(n + 1) |-> j - 1]).p
\* q(x - y) as a polynomial in y
Reflect(q, x) == FoldSeq(LAMBDA c, acc : PAdd(PMul(acc, <<Z(x), "-1">>), PNorm(<<c>>)), <<>>, Reverse(q))
\* y^n q(x / y), n the degree of q
Homog(q, x) == [j \in 1..Len(q) |-> ZMul(q[Len(q) + 1 - j], ZPow(Z(x), Len(q) - j))]
Monomial(c, n) == PShift(PNorm(<<c>>), n)
ResultPoly(o, x, y) ==
  LET n == PDeg(x.p) * PDeg(y.p)
      raw == CASE o = "add" -> Interpolate(LAMBDA t : PRes(x.p, Reflect(y.p, t)), n)
               [] o = "mul" -> Interpolate(LAMBDA t : PRes(x.p, Homog(y.p, t)), n)
               [] o = "recip" -> Reverse(x.p)
               [] o = "sqrt" -> Interpolate(LAMBDA t : PRes(x.p, PSub(<<ZPow(Z(t), 2)>>, <<"0", "1">>)), 2 * PDeg(x.p))
               [] o = "cube" -> Interpolate(LAMBDA t : PRes(x.p, PSub(<<Z(t)>>, <<"0", "0", "0", "1">>)), PDeg(x.p))
  IN  PSqFree(PPrim(raw))
\* the interval of the result
Combined(o, u, v) ==
  CASE o = "add" -> Tight(SetAdd(P(u), P(v)), MaxN(u.k, v.k))
    [] o = "mul" -> Tight(SetMul(P(u), P(v)), MaxN(u.k, v.k))
    [] o = "recip" -> Tight(SetInv(P(u)), u.k)
    [] o = "sqrt" -> LET w == SetAbs(P(u)) IN Iv(SqrtFloorAt(w[1], u.k), SqrtCeilAt(w[2], u.k), u.k)
    [] o = "cube" -> Tight(SetPow(P(u), 3), u.k)
IvOf(n) == Iv(n.lo, n.hi, n.k)
Count(p, v) == IF CountRoots = "closed" THEN PCountClosed(p, v.lo, Pow2(v.k), v.hi, Pow2(v.k))
               ELSE PCountHalfOpen(p, v.lo, Pow2(v.k), v.hi, Pow2(v.k))

\* ---- one bisection step
TruncHalf(z) == IF ZSgn(z) >= 0 THEN ZDiv(z, "2") ELSE ZNeg(ZDiv(ZNeg(z), "2"))
Shrink(p, v) ==
  LET range == ZSub(v.hi, v.lo) IN
  IF range = "0" THEN v
  ELSE LET w == IF ZCmp(range, "16") < 0 THEN Iv(ZAdd(v.lo, v.lo), ZAdd(v.hi, v.hi), v.k + 1) ELSE v
           den == Pow2(w.k)
           mid == TruncHalf(ZAdd(w.lo, w.hi))
       IN  IF PSgnAt(p, w.lo, den) = 0 THEN Iv(w.lo, w.lo, w.k)
           ELSE IF PSgnAt(p, w.hi, den) = 0 THEN Iv(w.hi, w.hi, w.k)
           ELSE IF PSgnAt(p, mid, den) = 0 THEN Iv(mid, mid, w.k)
           ELSE IF PCountHalfOpen(p, w.lo, den, mid, den) = 0 THEN Iv(mid, w.hi, w.k)
           ELSE Iv(w.lo, mid, w.k)
\* shrinks until zero is outside (before a reciprocal is taken)
RECURSIVE WithoutZero(_, _)
WithoutZero(p, v) == IF ZeroIn(v) THEN WithoutZero(p, Shrink(p, v)) ELSE v

Unary == {"recip", "sqrt", "cube"}
Defined(o, x) == (o = "recip" => SgnOf(x) # 0) /\ (o = "sqrt" => SgnOf(x) > 0)
\* operations the crate performs by root selection (rational operands and 0, 1 take short cuts)
Selects(o, x, y) == IF o \in Unary THEN PDeg(x.p) > 1 /\ Defined(o, x)
                    ELSE /\ PDeg(x.p) > 1 \/ PDeg(y.p) > 1
                         /\ SgnOf(x) # 0 /\ SgnOf(y) # 0
Init == /\ op \in Operations /\ a \in Numbers
        /\ b \in (IF op \in Unary THEN {a} ELSE Numbers)
        /\ Selects(op, a, b)
        /\ ia = (IF op = "recip" THEN WithoutZero(a.p, IvOf(a)) ELSE IvOf(a))
        /\ ib = IvOf(b)
        /\ phase = "look"
Left == Count(ResultPoly(op, a, b), Combined(op, ia, ib))
Look == /\ phase = "look"
        /\ IF Left <= 1 THEN phase' = "done" /\ UNCHANGED <<ia, ib>>
           ELSE phase' = "look" /\ ia' = Shrink(a.p, ia) /\ ib' = Shrink(b.p, ib)
        /\ UNCHANGED <<op, a, b>>
Spec == Init /\ [][Look]_vars /\ WF_vars(Look)

\* ---- what has to hold
Isolated == /\ IsNum([p |-> a.p, lo |-> ia.lo, hi |-> ia.hi, k |-> ia.k]) /\ Same(a, [p |-> a.p, lo |-> ia.lo, hi |-> ia.hi, k |-> ia.k])
            /\ IsNum([p |-> b.p, lo |-> ib.lo, hi |-> ib.hi, k |-> ib.k]) /\ Same(b, [p |-> b.p, lo |-> ib.lo, hi |-> ib.hi, k |-> ib.k])
Result == LET v == Combined(op, ia, ib) IN [p |-> ResultPoly(op, a, b), lo |-> v.lo, hi |-> v.hi, k |-> v.k]
RightRoot == phase = "done" =>
  /\ IsNum(Result)
  /\ CASE op = "add" -> SumIs(a, b, Result)
       [] op = "mul" -> ProdIs(a, b, Result)
       [] op = "recip" -> ProdIsOne(a, Result)
       [] op = "sqrt" -> SgnOf(Result) > 0 /\ PowIs(a, 1, 2, Result)
       [] op = "cube" -> PowIs(a, 3, 1, Result)
Terminates == <>(phase = "done")
=============================================================================
