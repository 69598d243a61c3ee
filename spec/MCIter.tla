------------------------------- MODULE MCIter -------------------------------
(* Every interval of a small grid through exp, log and agm of Iter.tla.    *)
(* The inputs are written out and replayed into the crate (I02).           *)
EXTENDS Iter, Json, CSV, IOUtils
CONSTANTS ExpK, ExpLo, ExpHi, ExpStep, Widths, LogK, LogHi, AgmHi
IvS(lo, hi, k) == Iv(Z(lo), Z(hi), k)
ExpLoQ == -4*64
ExpLoT == -12*256
ExpLoF == -12*256
ExpIn == {IvS(ExpLo + ExpStep*j, ExpLo + ExpStep*j + d, ExpK) : j \in 0..((ExpHi - ExpLo) \div ExpStep), d \in Widths}
LogIn == {IvS(p, p + d, LogK) : p \in 1..LogHi, d \in Widths}
AgmIn == {IvS(p, p + d, 1 + ((p + d) % 3)) : p \in 0..AgmHi, d \in Widths}
Init == \/ \E a \in ExpIn : ExpInit(a)
        \/ \E a \in LogIn : LogInit(a)
        \/ \E a, b \in AgmIn : AgmInit(a, b)
Spec == Init /\ [][INext]_ivars /\ WF_ivars(INext)
Emit == Done => CSVWrite("%1$s", <<ToJson([op |-> "i." \o fn, a |-> inp])>>, IOEnv.OUT)
=============================================================================
