------------------------------- MODULE MCPrs --------------------------------
(* Every remainder sequence over the given quotients; the input pairs are  *)
(* written out and replayed into gcd, resultant and Sturm operations.      *)
EXTENDS Prs, Json, CSV, IOUtils
ZS(s) == [j \in 1..Len(s) |-> Z(s[j])]
StartsQ == {ZS(<<1>>), ZS(<<2, 1>>), ZS(<<-3>>), ZS(<<1, 0, 2>>)}
QuotsQ == {ZS(<<1, 2>>), ZS(<<-1, 0, 3>>), ZS(<<0, 1, 0, -2>>), ZS(<<-2>>)}
StartsT == StartsQ \cup {ZS(<<0, 5>>), ZS(<<-1, 1, 1>>)}
QuotsT == QuotsQ \cup {ZS(<<3, -1>>), ZS(<<0, 0, 1>>), ZS(<<2, 0, 0, 0, 1>>)}
QuotsN == {ZS(<<1, 2>>), ZS(<<-1, 0, 3>>)}
Spec == GrowInit /\ [][Next]_pvars
Emit == (ph = "grow" /\ q # <<>>) => CSVWrite("%1$s", <<ToJson([a |-> p, b |-> q])>>, IOEnv.OUT)
=============================================================================
