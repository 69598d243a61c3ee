---------------------------- MODULE FieldFactor ----------------------------
(***************************************************************************)
(* Factorization of polynomials over a prime field by the degrees of the   *)
(* irreducible factors.                                                    *)
(***************************************************************************)
EXTENDS Poly
X(R) == Canon(R, <<"0", "1">>, "1")
RemF(R, a, b) == DivRemF(R, a, b).r
MulMod(R, a, b, f) == RemF(R, MulP(R, a, b), f)
\* a^e mod f, e >= 0 a numeral
RECURSIVE PowMod(_, _, _, _)
PowMod(R, a, e, f) ==
  IF e = "0" THEN RemF(R, OneP(R), f)
  ELSE LET h == PowMod(R, a, ZDiv(e, "2"), f)
           s == MulMod(R, h, h, f)
       IN  IF ZMod(e, "2") = "1" THEN MulMod(R, s, a, f) ELSE s
\* X^(m^d) mod f
RECURSIVE Frob(_, _, _)
Frob(R, d, f) == IF d = 0 THEN RemF(R, X(R), f) ELSE PowMod(R, Frob(R, d - 1, f), R.m, f)
SquareFree(R, f) == Deg(GcdF(R, f, DerivP(R, f))) = 0
\* every irreducible factor of the square-free polynomial f has degree d
AllOfDegree(R, f, d) ==
  \/ Deg(f) = 0
  \/ /\ Deg(f) % d = 0
     /\ IsZeroP(SubP(R, Frob(R, d, f), RemF(R, X(R), f)))
     /\ \A c \in 1..(d - 1) : d % c # 0 \/ Deg(GcdF(R, SubP(R, Frob(R, c, f), RemF(R, X(R), f)), f)) = 0
Monic(R, f) == ~IsZeroP(f) /\ PLc(f.n) = "1"
ProdP(R, s) == FoldSeq(LAMBDA p, acc : MulP(R, acc, p), OneP(R), s)
=============================================================================
