------------------------------ MODULE BigReal ------------------------------
(* The operators of BigRealDef.tla, evaluated by java/BigReal.java.        *)
EXTENDS Rat
DR == INSTANCE BigRealDef
ExpFloor(n, d, k) == DR!ExpFloor(n, d, k)
LnFloor(n, d, k)  == DR!LnFloor(n, d, k)
AgmFloor(an, ad, bn, bd, k) == DR!AgmFloor(an, ad, bn, bd, k)
=============================================================================
