------------------------------ MODULE Residue -------------------------------
(* Residues modulo m >= 1 (BigZ numerals), by their least non-negative      *)
(* representatives.                                                         *)
EXTENDS BigZ
MRed(v, m) == ZMod(v, m)
MAdd(a, b, m) == MRed(ZAdd(a, b), m)
MSub(a, b, m) == MRed(ZSub(a, b), m)
MMul(a, b, m) == MRed(ZMul(a, b), m)
MNeg(a, m) == MRed(ZNeg(a), m)
\* has an inverse; zero has none, even modulo 1 (the crate's rule)
MUnit(a, m) == MRed(a, m) # "0" /\ ZGcd(a, m) = "1"
MInv(a, m) == ZInvMod(a, m)
MDiv(a, b, m) == MMul(a, MInv(b, m), m)
MPow(a, n, m) == ZPowMod(a, n, m)
=============================================================================
