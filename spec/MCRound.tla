------------------------------ MODULE MCRound -------------------------------
(* Rounding over all small isolating intervals of a few numbers, replayed. *)
EXTENDS Rounding, Json, CSV, IOUtils
Ivs(p, B, K) == {n \in {[p |-> p, lo |-> Z(lo), hi |-> Z(hi), k |-> k] : lo \in (-B)..B, hi \in (-B)..B, k \in 0..K} :
                  /\ ZCmp(n.lo, n.hi) <= 0 /\ IsNum(n)}
PolysQ == {<<"-2", "0", "1">>, <<"-1", "-2", "1">>, <<"-15", "0", "1">>, <<"-17", "0", "4">>, <<"1", "-3", "0", "1">>, <<"-1", "0", "0", "65">>}
PolysT == PolysQ \cup {<<"-5", "0", "1">>, <<"-63", "0", "16">>, <<"-1", "-2", "1", "1">>, <<"-9", "0", "0", "1">>, <<"1", "0", "-10", "0", "1">>, <<"-1", "0", "15">>}
NumbersQ == UNION {Ivs(p, 5, 1) : p \in PolysQ}
NumbersT == UNION {Ivs(p, 12, 2) : p \in PolysT}
One(o, f) == [s |-> "", kind |-> "", op |-> "a." \o o, form |-> f, a |-> <<a>>]
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson(
   CASE op = "floor" -> <<One("ifloor", "r"), One("itrunc", "m"), One("sign", "")>>
     [] op = "ceil" -> <<One("iceil", "m"), One("trunc", "r"), One("fract", "r")>>
     [] op = "floor_log2" -> <<One("floor_log2", "r"), One("log2", "")>>
     [] op = "ceil_log2" -> <<One("ceil_log2", "m"), One("abs", "")>>)>>, IOEnv.OUT)
=============================================================================
