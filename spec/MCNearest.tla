----------------------------- MODULE MCNearest ------------------------------
(***************************************************************************)
(* Division to the nearest integer in a signed machine type of W bits:     *)
(* truncating division, then one correction when the remainder is more     *)
(* than half of the divisor.  Checked for all pairs of the type: dividend  *)
(* = divisor * quotient + remainder, no intermediate result leaves the     *)
(* type, no other quotient leaves a smaller remainder, and a tie goes      *)
(* towards zero.                                                           *)
(* Toward chooses the direction of the correction: "signs" looks at both   *)
(* operands, "divisor" at the divisor only (must be refuted).              *)
(***************************************************************************)
EXTENDS Integers, TLC, Json, CSV, IOUtils
CONSTANTS W, Toward
VARIABLES ph, a, b, q, r
vars == <<ph, a, b, q, r>>
Type == (-(2 ^ (W - 1)))..(2 ^ (W - 1) - 1)
Abs(n) == IF n < 0 THEN -n ELSE n
Trunc(x, y) == LET z == Abs(x) \div Abs(y) IN IF (x < 0) # (y < 0) THEN -z ELSE z
Init == a \in Type /\ b \in Type /\ q = 0 /\ r = 0 /\ ph = "divide"
Divide == /\ ph = "divide" /\ UNCHANGED <<a, b>>
          /\ IF b = 0 \/ Trunc(a, b) \notin Type THEN ph' = "refused" /\ UNCHANGED <<q, r>>
             ELSE q' = Trunc(a, b) /\ r' = a - b * Trunc(a, b) /\ ph' = "correct"
Up == IF Toward = "signs" THEN (a < 0) = (b < 0) ELSE b > 0
Correct == /\ ph = "correct" /\ ph' = "done" /\ UNCHANGED <<a, b>>
           /\ IF Abs(r) > Abs(b) \div 2
              THEN IF Up THEN q' = q + 1 /\ r' = r - b ELSE q' = q - 1 /\ r' = r + b
              ELSE UNCHANGED <<q, r>>
Next == Divide \/ Correct
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fits == q \in Type /\ r \in Type
Identity == ph \in {"correct", "done"} => a = b * q + r
Refused == ph = "refused" => b = 0 \/ (a = -(2 ^ (W - 1)) /\ b = -1)
Nearest == ph = "done" => /\ 2 * Abs(r) <= Abs(b)
                          /\ (2 * Abs(r) = Abs(b) => Abs(q * b) <= Abs(a))
Ends == <>(ph \in {"done", "refused"})
Emit == ph \in {"done", "refused"} => CSVWrite("%1$s", <<ToJson([a |-> ToString(a), b |-> ToString(b)])>>, IOEnv.OUT)
=============================================================================
