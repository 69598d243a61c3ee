------------------------------ MODULE MCWinnow ------------------------------
(***************************************************************************)
(* The loop of RootSelector::select_root over the factors of the result    *)
(* polynomial, with the arithmetic abstracted away.                        *)
(*                                                                         *)
(* The real roots of the result polynomial lie at even points of a line;   *)
(* each belongs to one irreducible factor.  One root is the result.  The   *)
(* operations provide intervals that contain it and that get narrower;     *)
(* nothing else is assumed of them (rounding outwards means that they need *)
(* not even be nested), and their bounds may fall on roots.  Factors with  *)
(* no root in the interval are dropped for good; when at most one root is  *)
(* left, the first factor of the list and the interval are the result.     *)
(*                                                                         *)
(* How = "halfopen" overlooks a root at the lower bound, How = "factors"   *)
(* stops when one factor is left, How = "first" takes the first factor of  *)
(* the original list (negative controls).                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS N, F, How
VARIABLES owner,         \* owner[x]: the factor with a root at 2x, 0 if there is no root
          target,        \* the root that is the result
          lo, hi,        \* the current interval
          alive,         \* factors that are left, in order
          result         \* <<>> or <<factor, lo, hi>>
vars == <<owner, target, lo, hi, alive, result>>
Points == 0..N
Roots(f) == {2 * x : x \in {y \in Points : owner[y] = f}}
In(f, l, h) == {r \in Roots(f) : l <= r /\ r <= h}
\* as the difference in sign changes counts them: not at the lower bound
HalfOpen(f, l, h) == Cardinality({r \in Roots(f) : l < r /\ r <= h})
Count(f, l, h) == HalfOpen(f, l, h) + (IF How # "halfopen" /\ l \in Roots(f) THEN 1 ELSE 0)
Bounds == 0..(2 * N + 1)
Init == /\ owner \in [Points -> 0..F]
        /\ target \in {2 * x : x \in {y \in Points : owner[y] # 0}}
        /\ lo \in 0..target /\ hi \in target..(2 * N + 1)
        /\ alive = [j \in 1..F |-> j] /\ result = <<>>
Left == SelectSeq(alive, LAMBDA f : Count(f, lo, hi) # 0)
Total == FoldSeq(LAMBDA f, acc : acc + Count(f, lo, hi), 0, alive)
Decided == IF How = "factors" THEN Len(Left) <= 1 ELSE Total <= 1
Look == /\ result = <<>> /\ UNCHANGED <<owner, target>>
        /\ alive' = Left
        /\ IF Decided
           THEN result' = <<IF How = "first" THEN 1 ELSE IF Left = <<>> THEN 0 ELSE Left[1], lo, hi>> /\ UNCHANGED <<lo, hi>>
           ELSE /\ result' = <<>>
                /\ lo' \in 0..target /\ hi' \in target..(2 * N + 1)
                /\ hi' - lo' < hi - lo
Spec == Init /\ [][Look]_vars /\ WF_vars(Look)
-----------------------------------------------------------------------------
\* the factor of the result is never dropped, and there is always one to choose
Owner == owner[target \div 2]
Kept == (\E j \in 1..Len(alive) : alive[j] = Owner)
Right == result # <<>> => result[1] = Owner /\ In(result[1], result[2], result[3]) = {target}
\* factors stay in order and are not repeated
Order == \A j \in 1..(Len(alive) - 1) : alive[j] < alive[j + 1]
Ends == <>(result # <<>>)
=============================================================================
