---------------------------- MODULE MCRecombine -----------------------------
(* Products of up to MaxFactors irreducible polynomials of a pool, through *)
(* every good prime and every arrangement of Recombine.tla.                *)
EXTENDS Recombine, Json, CSV, IOUtils
CONSTANTS Pool, MaxFactors, MaxDeg
ZS(s) == [j \in 1..Len(s) |-> Z(s[j])]
PoolQ == {ZS(<<-5, 3>>), ZS(<<1, 1>>), ZS(<<7, 2>>), ZS(<<1, 0, 1>>), ZS(<<7, 7, 5>>), ZS(<<1, 0, -10, 0, 1>>), ZS(<<1, 0, 0, 0, 1>>)}
PoolN == {ZS(<<4, 7>>), ZS(<<5, 2, -3, 1>>)}
PoolT == PoolQ \cup PoolN
Sum(S) == FoldSet(LAMBDA g, acc : acc + PDeg(g), 0, S)
Inputs == {SetToSeq(S) : S \in {x \in UNION {kSubset(n, Pool) : n \in 1..MaxFactors} : Sum(x) \in 2..MaxDeg}}
Init == \E t \in Inputs : RInit(t)
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)
Emit == ph = "choose" => CSVWrite("%1$s", <<ToJson([f |-> f])>>, IOEnv.OUT)
=============================================================================
