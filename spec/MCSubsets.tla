------------------------------ MODULE MCSubsets -----------------------------
(***************************************************************************)
(* Enumeration of the subsets of Lo..Hi-1 of a given size: a recursive     *)
(* helper fills position after position; here the recursion is a stack.    *)
(* The visitor may stop the enumeration at any visit.                      *)
(* Prune = FALSE bounds a position by the end of the range rather than by  *)
(* what the remaining positions need (still right, visits dead ends).      *)
(***************************************************************************)
EXTENDS BigZ, FiniteSetsExt, SequencesExt, Json, CSV, IOUtils
CONSTANTS MaxLo, MaxLen, Prune
VARIABLES ph, size, lo, hi, st, seen, stopped
vars == <<ph, size, lo, hi, st, seen, stopped>>
Init == /\ lo \in 0..MaxLo /\ hi \in 0..(MaxLo + MaxLen) /\ hi - lo <= MaxLen
        /\ size \in 0..(MaxLen + 1)
        /\ ph = "start" /\ st = <<>> /\ seen = <<>> /\ stopped = FALSE
Keep == UNCHANGED <<size, lo, hi>>
\* the last value a position may take
LastAt(n) == IF Prune THEN hi - (size - n + 1) ELSE hi - 1
Start == /\ ph = "start" /\ Keep /\ UNCHANGED <<st, seen, stopped>>
         /\ ph' = IF hi <= lo \/ hi - lo < size THEN "done" ELSE "down"
\* st: the chosen indexes; "down" opens the next position, "up" advances the last one
Down == /\ ph = "down" /\ Keep
        /\ IF Len(st) = size
           THEN /\ seen' = Append(seen, st) /\ st' = st
                /\ \/ ph' = "up" /\ stopped' = FALSE
                   \/ ph' = "done" /\ stopped' = TRUE        \* the visitor says stop
           ELSE LET from == IF st = <<>> THEN lo ELSE Last(st) + 1 IN
                /\ seen' = seen /\ stopped' = stopped
                /\ IF from <= LastAt(Len(st) + 1) THEN st' = Append(st, from) /\ ph' = "down" ELSE st' = st /\ ph' = "up"
Up == /\ ph = "up" /\ Keep /\ UNCHANGED <<seen, stopped>>
      /\ IF st = <<>> THEN ph' = "done" /\ st' = st
         ELSE IF Last(st) < LastAt(Len(st)) THEN st' = Append(Front(st), Last(st) + 1) /\ ph' = "down"
         ELSE st' = Front(st) /\ ph' = "up"
Next == Start \/ Down \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Lex(s, u) == \E n \in 1..Len(s) : s[n] < u[n] /\ \A j \in 1..(n - 1) : s[j] = u[j]
AllSubsets == IF hi <= lo THEN {} ELSE {SetToSortSeq(S, <) : S \in {x \in SUBSET (lo..(hi - 1)) : Cardinality(x) = size}}
InOrder == \A n \in 1..(Len(seen) - 1) : Lex(seen[n], seen[n + 1])
Legal == \A n \in 1..Len(seen) : seen[n] \in AllSubsets
\* nothing before the last visited one was left out
NoGap == seen # <<>> => \A s \in AllSubsets : Lex(s, Last(seen)) => \E n \in 1..Len(seen) : seen[n] = s
Complete == (ph = "done" /\ ~stopped) => {seen[n] : n \in 1..Len(seen)} = AllSubsets
Ends == <>(ph = "done")
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([size |-> size, lo |-> lo, hi |-> hi, limit |-> IF stopped THEN Len(seen) ELSE Len(seen) + 1])>>, IOEnv.OUT)
=============================================================================
