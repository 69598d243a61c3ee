----------------------------- MODULE MCInterval -----------------------------
(***************************************************************************)
(* An interval calculator: an exact rational point x and an interval v     *)
(* that is supposed to contain it go through the same sequence of          *)
(* operations, the point exactly and the interval through the result the   *)
(* specification (Interval.tla) prescribes.  TLC explores every program of *)
(* Depth operations over the small domain; Enclosed is the property the    *)
(* intervals exist for.  Every maximal program is written out and replayed *)
(* into the real crate, whose results are then judged by TraceInterval.    *)
(***************************************************************************)
EXTENDS Interval, Json, CSV, IOUtils, FiniteSets
CONSTANTS Depth, Starts, Rhs, Ops
VARIABLES x, v, hist
vars == <<x, v, hist>>
\* the constants of the model are chosen by name in the .cfg
IvS(lo, hi, k) == [lo |-> Z(lo), hi |-> Z(hi), k |-> k]
SmallIv(B, K) == {IvS(lo, hi, k) : lo \in (-B)..B, hi \in (-B)..B, k \in 0..K}
Ordered(S) == {w \in S : ZCmp(w.lo, w.hi) <= 0}
StartsQ == {IvS(-3, 2, 1), IvS(-5, -3, 2), IvS(1, 3, 0), IvS(3, 3, 1), IvS(0, 5, 2), IvS(-4, 0, 1), IvS(-3, 5, 2)}
StartsT == Ordered(SmallIv(3, 1))
RhsQ == {IvS(-2, 3, 1), IvS(3, 5, 2), IvS(-3, -1, 0)}
RhsT == {IvS(-2, 3, 1), IvS(3, 5, 2), IvS(-3, -1, 0), IvS(-7, 5, 3), IvS(0, 3, 1), IvS(-3, -3, 1)}
OpsAll == {"add", "sub", "mul", "div", "union", "neg", "square", "abs", "recip", "pow3", "pow2", "conv0", "conv2", "conv5"}
\* points of an interval: its ends, its middle and a third
Points(w) == {Lo(w), Hi(w), RMul(<<"1","2">>, RAdd(Lo(w), Hi(w))), RAdd(Lo(w), RMul(<<"1","3">>, RSub(Hi(w), Lo(w))))}
Cmd(op, form, kind, args, d) == [s |-> "", op |-> op, form |-> form, kind |-> kind, a |-> args, d |-> d]
Reg(n) == [r |-> "r" \o ToString(n)]
Cur == Reg(Len(hist))
Dest == "r" \o ToString(Len(hist) + 1)
Init == \E w \in Starts : \E p \in Points(w) : x = RNorm(p) /\ v = w /\ hist = <<Cmd("i.lit", "", "I", <<w>>, "r1")>>
Step(nx, nv, c) == x' = RNorm(nx) /\ v' = nv /\ hist' = Append(hist, c)
BinForms == <<"mm", "mr", "rm", "rr", "am", "ar">>
F(n) == BinForms[(n % 6) + 1]
Bin(op, w, y) ==
  /\ op \in Ops
  /\ LET k == MaxN(v.k, w.k)  c == Cmd("i." \o op, F(Len(hist) + w.k), "I", <<Cur, w>>, Dest) IN
     CASE op = "add" -> Step(RAdd(x, y), Tight(SetAdd(P(v), P(w)), k), c)
       [] op = "sub" -> Step(RSub(x, y), Tight(SetSub(P(v), P(w)), k), c)
       [] op = "mul" -> Step(RMul(x, y), Tight(SetMul(P(v), P(w)), k), c)
       [] op = "union" -> Step(x, Tight(SetUnion(P(v), P(w)), k), c)
       [] op = "div" -> ~ZeroIn(w) /\ Step(RDiv(x, y), Tight(SetMul(P(v), P(Tight(SetInv(P(w)), w.k))), k), c)
Un(op) ==
  /\ op \in Ops
  /\ CASE op = "neg" -> Step(RNeg(x), Tight(SetNeg(P(v)), v.k), Cmd("i.neg", "m", "I", <<Cur>>, Dest))
       [] op = "square" -> Step(RMul(x, x), Tight(SetPow(P(v), 2), v.k), Cmd("i.square", "a", "I", <<Cur>>, Dest))
       [] op = "pow2" -> Step(RPow(x, 2), Tight(SetPow(P(v), 2), v.k), Cmd("i.pow", "m", "u32", <<Cur, "2">>, Dest))
       [] op = "pow3" -> Step(RPow(x, 3), Tight(SetPow(P(v), 3), v.k), Cmd("i.pow", "r", "i64", <<Cur, "3">>, Dest))
       [] op = "abs" -> Step(RAbs(x), Tight(SetAbs(P(v)), v.k), Cmd("i.abs", "r", "I", <<Cur>>, Dest))
       [] op = "recip" -> ~ZeroIn(v) /\ Step(RInv(x), Tight(SetInv(P(v)), v.k), Cmd("i.recip", "c", "I", <<Cur>>, Dest))
       [] op = "conv0" -> Step(x, Outward(Lo(v), Hi(v), 0), Cmd("i.convert", "a", "I", <<Cur, 0>>, Dest))
       [] op = "conv2" -> Step(x, Outward(Lo(v), Hi(v), 2), Cmd("i.convert", "m", "I", <<Cur, 2>>, Dest))
       [] op = "conv5" -> Step(x, Outward(Lo(v), Hi(v), 5), Cmd("i.convert", "r", "I", <<Cur, 5>>, Dest))
Next == /\ Len(hist) <= Depth
        /\ \/ \E op \in {"add", "sub", "mul", "div", "union"} : \E w \in Rhs : \E y \in {Lo(w), Hi(w)} : Bin(op, w, y)
           \/ \E op \in {"neg", "square", "abs", "recip", "pow2", "pow3", "conv0", "conv2", "conv5"} : Un(op)
Spec == Init /\ [][Next]_vars
\* the property: nothing is lost
Enclosed == IsIv(v) /\ RLe(Lo(v), x) /\ RLe(x, Hi(v))
\* programs are written once, by their first point
Emit == Len(hist) = Depth + 1 => (x = x /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT))
=============================================================================
