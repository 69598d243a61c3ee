------------------------------ MODULE MCSelect ------------------------------
(* The root selection machine over all small isolating intervals of a few   *)
(* numbers; every operation is also replayed into the crate.                *)
EXTENDS RootSelect, Json, CSV, IOUtils
\* all isolating intervals of real roots of p with bounds lo, hi in -B..B over 2^k, k <= K
Ivs(p, B, K) == {n \in {[p |-> p, lo |-> Z(lo), hi |-> Z(hi), k |-> k] : lo \in (-B)..B, hi \in (-B)..B, k \in 0..K} :
                  /\ ZCmp(n.lo, n.hi) <= 0 /\ IsNum(n)}
PolysQ == {<<"-2", "0", "1">>, <<"-1", "-2", "1">>, <<"-8", "0", "1">>, <<"-1", "3">>, <<"1", "1">>}
PolysT == PolysQ \cup {<<"-3", "0", "1">>, <<"-1", "-1", "1">>, <<"-1", "-2", "1", "1">>, <<"-3", "2">>}
NumbersQ == UNION {Ivs(p, 3, 0) : p \in PolysQ}
NumbersT == UNION {Ivs(p, 3, 1) : p \in PolysT}
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson(<<[s |-> "", kind |-> "",
   op |-> CASE op = "sqrt" -> "a.pow" [] op = "cube" -> "a.pow" [] OTHER -> "a." \o op,
   form |-> IF op \in {"sqrt", "cube"} THEN "cr" ELSE IF op = "recip" THEN "c" ELSE "rr",
   a |-> CASE op = "sqrt" -> <<a, <<"1", "2">>>> [] op = "cube" -> <<a, <<"3", "1">>>> [] op = "recip" -> <<a>> [] OTHER -> <<a, b>>]>>)>>, IOEnv.OUT)
=============================================================================
