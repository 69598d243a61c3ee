------------------------------ MODULE Rounding ------------------------------
(***************************************************************************)
(* How the crate finds integer parts, binary logarithms and signs of       *)
(* algebraic numbers: it shrinks the isolating interval until both bounds  *)
(* give the same answer (into_integer_floor, do_checked_floor_ceil_log2),  *)
(* or counts sign changes at the bounds and at zero (cmp_with_zero).       *)
(* Rational numbers take short cuts.                                       *)
(***************************************************************************)
EXTENDS RootSelect
CONSTANT RoundOps
\* op, a, ia, phase as in RootSelect; b, ib unused
rvars == vars
\* floor and ceiling of the binary logarithm of a positive rational
RFloorLog2(q) == LET RECURSIVE F(_)
                     F(n) == LET m == RFloorAt(q, n) IN IF ZSgn(m) > 0 THEN ZBits(m) - 1 - n ELSE F(2 * n + 4)
                 IN F(0)
RCeilLog2(q) == LET f == RFloorLog2(q) IN IF REq(q, RPow2(f)) THEN f ELSE f + 1
\* <<answer at the lower bound, answer at the upper bound>>
Answers(o, v) ==
  CASE o = "floor" -> <<RFloor(Lo(v)), RFloor(Hi(v))>>
    [] o = "ceil" -> LET n == Tight(SetNeg(P(v)), v.k) IN <<ZNeg(RFloor(Hi(n))), ZNeg(RFloor(Lo(n)))>>
    [] o = "floor_log2" -> <<Z(RFloorLog2(Lo(v))), Z(RFloorLog2(Hi(v)))>>
    [] o = "ceil_log2" -> <<Z(RCeilLog2(Lo(v))), Z(RCeilLog2(Hi(v)))>>
RInit == /\ op \in RoundOps /\ a \in Numbers /\ b = a
         /\ PDeg(a.p) > 1
         /\ (op \in {"floor_log2", "ceil_log2"} => SgnOf(a) > 0)
         /\ ia = (IF op \in {"floor_log2", "ceil_log2"} THEN WithoutZero(a.p, IvOf(a)) ELSE IvOf(a))
         /\ ib = IvOf(b) /\ phase = "look"
RLook == /\ phase = "look"
         /\ LET r == Answers(op, ia) IN
            IF r[1] = r[2] THEN phase' = "done" /\ UNCHANGED ia
            ELSE phase' = "look" /\ ia' = Shrink(a.p, ia)
         /\ UNCHANGED <<op, a, b, ib>>
RSpec == RInit /\ [][RLook]_vars /\ WF_vars(RLook)
\* the sign by counting roots between the lower bound and zero
SignByCount(n) ==
  IF ZSgn(n.lo) > 0 THEN 1 ELSE IF ZSgn(n.hi) < 0 THEN -1
  ELSE IF PCountHalfOpen(n.p, n.lo, Pow2(n.k), "0", "1") = 0 THEN 1 ELSE -1
Answer == Answers(op, ia)[1]
RightAnswer == phase = "done" =>
  Answer = (CASE op = "floor" -> FloorOf(a) [] op = "ceil" -> CeilOf(a)
              [] op = "floor_log2" -> Z(FloorLog2(a)) [] op = "ceil_log2" -> Z(CeilLog2(a)))
RightSign == SignByCount(a) = SgnOf(a)
=============================================================================
