------------------------------ MODULE MCField -------------------------------
(***************************************************************************)
(* A calculator over Q(sqrt 2, sqrt 3).  Every program of Depth operations *)
(* is explored; in every state the relations of Algebraic.tla (which judge *)
(* the crate) must agree with exact arithmetic in the field.  The programs *)
(* are replayed into the crate, starting from integers and square roots.   *)
(***************************************************************************)
EXTENDS Field, Json, CSV, IOUtils
CONSTANTS Depth, Ops, AgreeDepth    \* agreement is checked up to AgreeDepth operations
VARIABLES cur, prev, hist
vars == <<cur, prev, hist>>
Sqrt2 == <<Q(0), Q(1), Q(0), Q(0)>>
Sqrt3 == <<Q(0), Q(0), Q(1), Q(0)>>
Half3 == <<<<"3", "2">>, Q(0), Q(0), Q(0)>>
Base == [x \in {"r", "t", "h"} |-> IF x = "r" THEN Sqrt2 ELSE IF x = "t" THEN Sqrt3 ELSE Half3]
Cmd(o, f, kd, args, d) == [s |-> "", op |-> "a." \o o, form |-> f, kind |-> kd, a |-> args, d |-> d]
NoD(o, args) == [s |-> "", op |-> "a." \o o, form |-> "", kind |-> "", a |-> args]
Reg(x) == [r |-> x]
Prelude == << Cmd("from_int", "", "i32", <<"2">>, "two"), Cmd("from_int", "", "u8", <<"3">>, "three"),
              Cmd("pow", "cr", "pair", <<Reg("two"), <<"1", "2">>>>, "r"), Cmd("pow", "cr", "", <<Reg("three"), <<"1", "2">>>>, "t"),
              Cmd("from_ratio", "", "i64", <<<<"3", "2">>>>, "h") >>
CurReg == IF hist = <<>> THEN "r" ELSE "c" \o ToString(Len(hist))
NewReg == "c" \o ToString(Len(hist) + 1)
Forms == <<"mm", "mr", "rm", "rr", "am", "ar">>
Form(n) == Forms[(n % 6) + 1]
Init == cur = Sqrt2 /\ prev = Sqrt2 /\ hist = <<>>
Do(v, c) == cur' = v /\ prev' = cur /\ hist' = Append(hist, c)
Operands == [x \in {"r", "t", "h", CurReg} |-> IF x = CurReg THEN cur ELSE Base[x]]
Binary(o, x, swap) ==
  LET l == IF swap THEN Operands[x] ELSE cur   r == IF swap THEN cur ELSE Operands[x]
      args == IF swap THEN <<Reg(x), Reg(CurReg)>> ELSE <<Reg(CurReg), Reg(x)>>
      c == Cmd(o, Form(Len(hist) + (IF swap THEN 3 ELSE 0)), "", args, NewReg)
  IN  CASE o = "add" -> ~swap /\ Do(FAdd(l, r), c)
        [] o = "mul" -> ~swap /\ Do(FMul(l, r), c)
        [] o = "sub" -> Do(FSub(l, r), c)
        [] o = "div" -> ~FIsZero(r) /\ Do(FDiv(l, r), c)
\* ---- agreement of the two definitions
N(u) == Num(u, 40)
FieldLaws == /\ (~FIsZero(cur) => FMul(cur, FInv(cur)) = FInt(1))
             /\ FMul(cur, FAdd(prev, Sqrt3)) = FAdd(FMul(cur, prev), FMul(cur, Sqrt3))
Represented == IsNum(N(cur)) /\ SgnOf(N(cur)) = FSgn(cur)
Near == {cur, prev, FAdd(cur, prev), FSub(cur, prev), FMul(cur, prev), FAdd(FAdd(cur, prev), FSub(FMul(Sqrt2, Sqrt2), FInt(2))), Conj2(cur), FNeg(cur)}
Agreement ==
  Len(hist) <= AgreeDepth =>
    LET c == N(cur)  q == N(prev)  sum == FAdd(cur, prev)  prod == FMul(cur, prev)  sq == FMul(cur, cur)  neg == FNeg(cur) IN
    \A w \in Near :
      LET n == N(w) IN
      /\ SumIs(c, q, n) <=> (w = sum)
      /\ ProdIs(c, q, n) <=> (w = prod)
      /\ NegIs(c, n) <=> (w = neg)
      /\ Cmp(c, n) = FSgn(FSub(cur, w))
      /\ PowIs(c, 2, 1, n) <=> (w = sq)
\* (checked where a state is expanded, not as an invariant, so that the workers share the cost)
Next == /\ Len(hist) < Depth
        /\ Assert(Agreement, <<"the definitions disagree", cur, prev>>)
        /\ \/ \E o \in Ops \cap {"add", "sub", "mul", "div"} : \E x \in {"r", "t", "h", CurReg} : \E s \in BOOLEAN : Binary(o, x, s)
           \/ "neg" \in Ops /\ Do(FNeg(cur), Cmd("neg", "r", "", <<Reg(CurReg)>>, NewReg))
           \/ "recip" \in Ops /\ ~FIsZero(cur) /\ Do(FInv(cur), Cmd("recip", "c", "", <<Reg(CurReg)>>, NewReg))
Spec == Init /\ [][Next]_vars
Finish == <<NoD("cmp", <<Reg(CurReg), Reg("r")>>), NoD("cmp", <<Reg("t"), Reg(CurReg)>>), NoD("sign", <<Reg(CurReg)>>),
            NoD("class", <<Reg(CurReg)>>), [NoD("ifloor", <<Reg(CurReg)>>) EXCEPT !.form = "r"]>>
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(Prelude \o hist \o Finish)>>, IOEnv.OUT)
=============================================================================
