----------------------------- MODULE EuclidProof ----------------------------
(***************************************************************************)
(* The extended Euclidean algorithm (MCEuclid) on all integers, with any   *)
(* rounding of the quotients: machine-checked proof (tlapm) that the       *)
(* Bezout identities hold at every step, that the common divisors of the   *)
(* two current remainders are always those of the arguments, and hence     *)
(* that the result is a greatest common divisor.                           *)
(***************************************************************************)
EXTENDS Integers, TLAPS
VARIABLES a, b, r0, r1, s0, s1, t0, t1
vars == <<a, b, r0, r1, s0, s1, t0, t1>>
Divides(d, n) == \E m \in Int : n = d * m
Init == /\ a \in Int /\ b \in Int /\ r0 = a /\ r1 = b
        /\ s0 = 1 /\ s1 = 0 /\ t0 = 0 /\ t1 = 1
Step == /\ r1 # 0 /\ UNCHANGED <<a, b>>
        /\ \E q \in Int : /\ r0' = r1 /\ r1' = r0 - q * r1
                          /\ s0' = s1 /\ s1' = s0 - q * s1
                          /\ t0' = t1 /\ t1' = t0 - q * t1
Spec == Init /\ [][Step]_vars
Types == /\ a \in Int /\ b \in Int /\ r0 \in Int /\ r1 \in Int
         /\ s0 \in Int /\ s1 \in Int /\ t0 \in Int /\ t1 \in Int
Bezout == r0 = a * s0 + b * t0 /\ r1 = a * s1 + b * t1
Common == \A d \in Int : (Divides(d, r0) /\ Divides(d, r1)) => (Divides(d, a) /\ Divides(d, b))
Inv == Types /\ Bezout /\ Common
\* when the remainder is zero, r0 divides both and every common divisor divides it
Greatest == r1 = 0 => /\ Divides(r0, a) /\ Divides(r0, b)
                      /\ \A d \in Int : (Divides(d, a) /\ Divides(d, b)) => Divides(d, r0)
LEMMA Lin == \A d, x, y, p, q \in Int : (Divides(d, x) /\ Divides(d, y)) => Divides(d, x * p + y * q)
<1> SUFFICES ASSUME NEW d \in Int, NEW x \in Int, NEW y \in Int, NEW p \in Int, NEW q \in Int, NEW m \in Int, NEW n \in Int, x = d * m, y = d * n
             PROVE Divides(d, x * p + y * q) BY DEF Divides
<1>1. (d * m) * p + (d * n) * q = d * (m * p + n * q) OBVIOUS
<1>2. m * p + n * q \in Int OBVIOUS
<1> QED BY <1>1, <1>2 DEF Divides
LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. Types BY DEF Init, Types
<1>2. Bezout BY DEF Init, Bezout
<1>3. Common BY DEF Init, Common
<1> QED BY <1>1, <1>2, <1>3 DEF Inv
LEMMA StepInv == Inv /\ [Step]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Step]_vars PROVE Inv' OBVIOUS
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv, Types, Bezout, Common
<1>2. CASE Step
  <2>1. PICK q \in Int : /\ r0' = r1 /\ r1' = r0 - q * r1 /\ s0' = s1 /\ s1' = s0 - q * s1 /\ t0' = t1 /\ t1' = t0 - q * t1
    BY <1>2 DEF Step
  <2>2. a' = a /\ b' = b BY <1>2 DEF Step
  <2>3. Types BY DEF Inv
  <2>4. Types' BY <2>1, <2>2, <2>3 DEF Types
  <2>5. Bezout'
    <3>1. r0 = a * s0 + b * t0 /\ r1 = a * s1 + b * t1 BY DEF Inv, Bezout
    <3>2. a * (s0 - q * s1) + b * (t0 - q * t1) = (a * s0 + b * t0) - q * (a * s1 + b * t1) BY <2>3 DEF Types
    <3> QED BY <2>1, <2>2, <3>1, <3>2 DEF Bezout
  <2>6. Common'
    <3> SUFFICES ASSUME NEW d \in Int, Divides(d, r1), Divides(d, r0 - q * r1) PROVE Divides(d, a) /\ Divides(d, b)
        BY <2>1, <2>2 DEF Common, Divides
    <3>1. r0 = (r0 - q * r1) * 1 + r1 * q BY <2>3 DEF Types
    <3>2. (r0 - q * r1) \in Int BY <2>3 DEF Types
    <3>3. Divides(d, r0) BY <2>3, <3>1, <3>2, Lin DEF Types
    <3> QED BY <3>3 DEF Inv, Common
  <2> QED BY <2>4, <2>5, <2>6 DEF Inv
<1> QED BY <1>1, <1>2
LEMMA Done == Inv => Greatest
<1> SUFFICES ASSUME Inv, r1 = 0 PROVE /\ Divides(r0, a) /\ Divides(r0, b)
                                      /\ \A d \in Int : (Divides(d, a) /\ Divides(d, b)) => Divides(d, r0) BY DEF Greatest
<1>0. r0 \in Int /\ a \in Int /\ b \in Int /\ s0 \in Int /\ t0 \in Int BY DEF Inv, Types
<1>1. Divides(r0, r0) /\ Divides(r0, 0)
  <2>1. r0 = r0 * 1 /\ 0 = r0 * 0 BY <1>0
  <2> QED BY <2>1 DEF Divides
<1>2. Divides(r0, a) /\ Divides(r0, b) BY <1>0, <1>1 DEF Inv, Common
<1>3. \A d \in Int : (Divides(d, a) /\ Divides(d, b)) => Divides(d, r0) BY <1>0, Lin DEF Inv, Bezout
<1> QED BY <1>2, <1>3
THEOREM Safety == Spec => [](Bezout /\ Greatest)
<1>1. Inv => Bezout BY DEF Inv
<1> QED BY InitInv, StepInv, Done, <1>1, PTL DEF Spec
=============================================================================
