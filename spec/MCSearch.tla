------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* The search for the next or previous prime, with trial division by a     *)
(* table of primes, scaled down: the crate searches the 32-bit numbers     *)
(* with the table of all 16-bit primes; here numbers have 2*Half bits and  *)
(* the table has the primes of Half bits, so that every corner - the end   *)
(* of the range, the square of the largest table entry, the signed limit - *)
(* is reached.                                                             *)
(*                                                                         *)
(* One step tries one table entry or moves on to the next odd candidate.   *)
(* Stop: a candidate is settled once the square of the entry exceeds it    *)
(* ("gt"), or, as a negative control, already when it equals it ("ge").    *)
(***************************************************************************)
EXTENDS BigZ, FiniteSetsExt, SequencesExt, Json, CSV, IOUtils
CONSTANTS Half, Stop
VARIABLES ph, dir, signed, v0, v, t, res
vars == <<ph, dir, signed, v0, v, t, res>>
Limit == 2 ^ (2 * Half)                      \* numbers are below
SLimit == 2 ^ (2 * Half - 1)
IsPrime(n) == n > 1 /\ \A d \in 2..(n - 1) : n % d # 0
Table == SetToSortSeq({n \in 0..(2 ^ Half - 1) : IsPrime(n)}, <)
Biggest == Max({n \in 0..(Limit - 1) : IsPrime(n)})
BiggestS == Max({n \in 0..(SLimit - 1) : IsPrime(n)})
None == -1
Init == /\ dir \in {"next", "prev"} /\ signed \in BOOLEAN
        /\ v0 \in (IF signed THEN (-SLimit)..(SLimit - 1) ELSE 0..(Limit - 1))
        /\ ph = "start" /\ v = 0 /\ t = 1 /\ res = None
Finish(x) == ph' = "done" /\ res' = x /\ UNCHANGED <<v, t>>
Try(x) == ph' = "try" /\ v' = x /\ t' = 1 /\ UNCHANGED res
Start ==
  /\ ph = "start" /\ UNCHANGED <<dir, signed, v0>>
  /\ IF dir = "next" THEN
       IF signed /\ v0 >= BiggestS THEN Finish(None)
       ELSE LET w == IF v0 < 0 THEN 0 ELSE v0 IN
            IF w < 2 THEN Finish(2) ELSE IF w = 2 THEN Finish(3)
            ELSE IF w >= Biggest THEN Finish(None)
            ELSE Try(IF w % 2 = 0 THEN w + 1 ELSE w + 2)
     ELSE IF v0 <= 2 THEN Finish(None) ELSE IF v0 = 3 THEN Finish(2)
     ELSE Try((IF v0 % 2 = 0 THEN v0 + 1 ELSE v0) - 2)
Settled == t > Len(Table) \/ v = Table[t]
Enough == IF Stop = "gt" THEN Table[t] * Table[t] > v ELSE Table[t] * Table[t] >= v
Step ==
  /\ ph = "try" /\ UNCHANGED <<dir, signed, v0>>
  /\ IF Settled THEN Finish(v)
     ELSE IF Stop = "gt" /\ v % Table[t] = 0 THEN Try(IF dir = "next" THEN v + 2 ELSE v - 2)
     ELSE IF Enough THEN Finish(v)
     ELSE IF v % Table[t] = 0 THEN Try(IF dir = "next" THEN v + 2 ELSE v - 2)
     ELSE t' = t + 1 /\ UNCHANGED <<ph, v, res>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* candidates never leave the range and no prime is passed by
InRange == ph = "try" => v \in 2..(Limit - 1)
Between == IF dir = "next" THEN (v0 + 1)..(v - 1) ELSE (v + 1)..(v0 - 1)
NothingMissed == ph = "try" => \A n \in Between : n < 0 \/ ~IsPrime(n)
Right == ph = "done" =>
  LET top == IF signed THEN SLimit - 1 ELSE Limit - 1
      S == IF dir = "next" THEN {n \in 2..top : n > v0 /\ IsPrime(n)} ELSE {n \in 2..top : n < v0 /\ IsPrime(n)}
  IN  res = (IF S = {} THEN None ELSE IF dir = "next" THEN Min(S) ELSE Max(S))
Ends == <>(ph = "done")
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([dir |-> dir, s |-> signed, v |-> Z(v0)])>>, IOEnv.OUT)
=============================================================================
