----------------------------- MODULE PowerProof -----------------------------
(***************************************************************************)
(* Raising to a power by squaring (Power) in any commutative monoid, to    *)
(* any exponent: machine-checked proof (tlapm).                            *)
(***************************************************************************)
EXTENDS Integers, NaturalsInduction, TLAPS
CONSTANTS M, Times(_, _), One, Pow(_, _)
ASSUME Monoid == /\ One \in M
                 /\ \A x, y \in M : Times(x, y) \in M /\ Times(x, y) = Times(y, x)
                 /\ \A x, y, z \in M : Times(Times(x, y), z) = Times(x, Times(y, z))
                 /\ \A x \in M : Times(One, x) = x
\* the n-fold product
ASSUME PowDef == \A x \in M : Pow(x, 0) = One /\ \A n \in Nat : Pow(x, n + 1) = Times(Pow(x, n), x)
VARIABLES b0, e0, b, e, acc
vars == <<b0, e0, b, e, acc>>
Init == b0 \in M /\ e0 \in Nat /\ b = b0 /\ e = e0 /\ acc = One
Step == /\ e # 0 /\ UNCHANGED <<b0, e0>>
        /\ acc' = (IF e % 2 = 1 THEN Times(acc, b) ELSE acc)
        /\ e' = e \div 2 /\ b' = Times(b, b)
Spec == Init /\ [][Step]_vars
Inv == /\ b0 \in M /\ e0 \in Nat /\ b \in M /\ e \in Nat /\ acc \in M
       /\ Times(acc, Pow(b, e)) = Pow(b0, e0)
Right == e = 0 => acc = Pow(b0, e0)

LEMMA PowIn == \A x \in M : \A n \in Nat : Pow(x, n) \in M
<1> SUFFICES ASSUME NEW x \in M PROVE \A n \in Nat : Pow(x, n) \in M OBVIOUS
<1> DEFINE H(n) == Pow(x, n) \in M
<1>1. H(0) BY PowDef, Monoid
<1>2. \A n \in Nat : H(n) => H(n + 1) BY PowDef, Monoid
<1> HIDE DEF H
<1>3. \A n \in Nat : H(n) BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF H
LEMMA PowSquare == \A x \in M : \A n \in Nat : Pow(Times(x, x), n) = Pow(x, 2 * n)
<1> SUFFICES ASSUME NEW x \in M PROVE \A n \in Nat : Pow(Times(x, x), n) = Pow(x, 2 * n) OBVIOUS
<1> DEFINE H(n) == Pow(Times(x, x), n) = Pow(x, 2 * n)
<1>0. Times(x, x) \in M BY Monoid
<1>1. H(0) BY <1>0, PowDef
<1>2. ASSUME NEW n \in Nat, H(n) PROVE H(n + 1)
  <2>1. Pow(Times(x, x), n + 1) = Times(Pow(x, 2 * n), Times(x, x)) BY <1>0, <1>2, PowDef
  <2>2. Pow(x, 2 * n + 1) = Times(Pow(x, 2 * n), x) BY PowDef
  <2>3. Pow(x, (2 * n + 1) + 1) = Times(Pow(x, 2 * n + 1), x) BY PowDef
  <2>4. 2 * (n + 1) = (2 * n + 1) + 1 OBVIOUS
  <2>5. Pow(x, 2 * n) \in M BY PowIn
  <2>6. Times(Times(Pow(x, 2 * n), x), x) = Times(Pow(x, 2 * n), Times(x, x)) BY <2>5, Monoid
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>6
<1> HIDE DEF H
<1>3. \A n \in Nat : H(n) BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF H
LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. Pow(b, e) \in M BY PowIn DEF Init
<1>2. Times(One, Pow(b, e)) = Pow(b, e) BY <1>1, Monoid
<1> QED BY <1>2, Monoid DEF Init, Inv
LEMMA StepInv == Inv /\ [Step]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Step]_vars PROVE Inv' OBVIOUS
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv
<1>2. CASE Step
  <2> DEFINE h == e \div 2
             s == Times(b, b)
  <2>1. e \in Nat /\ b \in M /\ acc \in M BY DEF Inv
  <2>2. h \in Nat /\ (e % 2 = 1 => e = 2 * h + 1) /\ (e % 2 # 1 => e = 2 * h) BY <2>1
  <2>3. s \in M /\ Pow(s, h) = Pow(b, 2 * h) /\ Pow(b, 2 * h) \in M BY <2>1, <2>2, PowSquare, PowIn, Monoid
  <2>4. b' = s /\ e' = h /\ b0' = b0 /\ e0' = e0 BY <1>2 DEF Step
  <2>5. CASE e % 2 = 1
    <3>1. acc' = Times(acc, b) BY <1>2, <2>5 DEF Step
    <3>2. Pow(b, e) = Times(Pow(b, 2 * h), b) BY <2>1, <2>2, <2>5, PowDef
    <3>3. Times(Times(acc, b), Pow(b, 2 * h)) = Times(acc, Times(Pow(b, 2 * h), b)) BY <2>1, <2>3, Monoid
    <3>4. acc' \in M BY <3>1, <2>1, Monoid
    <3> HIDE DEF h, s
    <3> QED BY <2>1, <2>2, <2>3, <2>4, <3>1, <3>2, <3>3, <3>4 DEF Inv
  <2>6. CASE e % 2 # 1
    <3>1. acc' = acc BY <1>2, <2>6 DEF Step
    <3> HIDE DEF h, s
    <3> QED BY <2>1, <2>2, <2>3, <2>4, <2>6, <3>1 DEF Inv
  <2> QED BY <2>5, <2>6
<1> QED BY <1>1, <1>2
THEOREM Safety == Spec => []Right
<1>1. Inv => Right
  <2> SUFFICES ASSUME Inv, e = 0 PROVE acc = Pow(b0, e0) BY DEF Right
  <2>1. Pow(b, e) = One BY PowDef DEF Inv
  <2>2. Times(acc, One) = acc BY Monoid DEF Inv
  <2> QED BY <2>1, <2>2 DEF Inv
<1> QED BY InitInv, StepInv, <1>1, PTL DEF Spec
=============================================================================
