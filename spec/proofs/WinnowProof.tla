----------------------------- MODULE WinnowProof ----------------------------
(***************************************************************************)
(* The loop of RootSelector::select_root (MCWinnow) for any result         *)
(* polynomial, any roots and any intervals around the result, nested or    *)
(* not: machine-checked proof (tlapm).  Positions of roots and bounds are  *)
(* numbers on a common scale.                                              *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS Factors, Roots, Own(_), Target
ASSUME RootsType == Roots \subseteq Int /\ \A r \in Roots : Own(r) \in Factors
ASSUME TargetType == Target \in Roots
VARIABLES lo, hi, alive, done, chosen
vars == <<lo, hi, alive, done, chosen>>
In(r) == lo <= r /\ r <= hi
Init == /\ lo \in Int /\ hi \in Int /\ In(Target)
        /\ alive = Factors /\ done = FALSE /\ chosen \in Factors
Left == {f \in alive : \E r \in Roots : In(r) /\ Own(r) = f}
AtMostOne == \A r, s \in Roots : (In(r) /\ In(s) /\ Own(r) \in alive /\ Own(s) \in alive) => r = s
Decide == /\ ~done /\ AtMostOne /\ done' = TRUE /\ alive' = Left /\ chosen' \in Left /\ UNCHANGED <<lo, hi>>
Narrow == /\ ~done /\ ~AtMostOne /\ alive' = Left
          /\ lo' \in Int /\ hi' \in Int /\ lo' <= Target /\ Target <= hi'
          /\ UNCHANGED <<done, chosen>>
Next == Decide \/ Narrow
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Inv == /\ lo \in Int /\ hi \in Int /\ alive \subseteq Factors
       /\ In(Target) /\ Own(Target) \in alive
       /\ done => chosen = Own(Target) /\ \A r \in Roots : (In(r) /\ Own(r) = chosen) => r = Target
\* the factor returned is the one of the result, and the interval holds no other root of it
Right == done => chosen = Own(Target) /\ In(Target) /\ \A r \in Roots : (In(r) /\ Own(r) = chosen) => r = Target
\* there is always a factor to return
Some == Left # {}
LEMMA InitInv == Init => Inv BY RootsType, TargetType DEF Init, Inv, In
LEMMA StepInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv, In
<1>2. Own(Target) \in Left BY TargetType DEF Inv, Left, In
<1>3. Left \subseteq Factors BY DEF Left, Inv
<1>4. CASE Decide
  <2>1. chosen' = Own(Target)
    <3>1. PICK r \in Roots : In(r) /\ Own(r) = chosen' /\ Own(r) \in alive BY <1>4 DEF Decide, Left
    <3>2. r = Target BY <1>4, <3>1, TargetType DEF Decide, AtMostOne, Inv
    <3> QED BY <3>1, <3>2
  <2>2. \A r \in Roots : (In(r) /\ Own(r) = chosen') => r = Target BY <1>4, <2>1, TargetType DEF Decide, AtMostOne, Inv
  <2> QED BY <1>2, <1>3, <1>4, <2>1, <2>2 DEF Decide, Inv, In
<1>5. CASE Narrow BY <1>2, <1>3, <1>5 DEF Narrow, Inv, In
<1> QED BY <1>1, <1>4, <1>5 DEF Next
THEOREM Safety == Spec => [](Right /\ Some)
<1>1. Inv => Right BY DEF Inv, Right
<1>2. Inv => Some BY TargetType DEF Inv, Some, Left, In
<1> QED BY InitInv, StepInv, <1>1, <1>2, PTL DEF Spec
=============================================================================
