------------------------------ MODULE MCPower -------------------------------
(* All small bases and exponents of the four monoids; every task is also    *)
(* replayed into the crate.                                                 *)
EXTENDS Power, Json, CSV, IOUtils
CONSTANTS Algebras, Moduli, MaxExp, PolyDeg, IvBound, IvPrec
Polys(n) == {Canon(F, [j \in 1..n |-> Z(s[j])], "1") : s \in [1..n -> 0..(Prime - 1)]}
Exps == {Z(n) : n \in 0..MaxExp}
Init ==
  \E ex \in Exps :
  \/ "res" \in Algebras /\ \E mm \in Moduli : \E x \in 0..(mm - 1) : PwInit("res", Z(mm), Z(x), ex)
  \/ "poly" \in Algebras /\ \E x \in Polys(PolyDeg) : PwInit("poly", "0", x, ex)
  \/ "mod" \in Algebras /\ \E mm \in Polys(PolyDeg + 1) \ {Zero(F)} : \E x \in Polys(PolyDeg) : PwInit("mod", mm, x, ex)
  \/ "iv" \in Algebras /\ \E k \in 0..IvPrec : \E l, u \in (-IvBound)..IvBound : l <= u /\ PwInit("iv", k, <<Z(l), Z(u)>>, ex)
Spec == Init /\ [][PwNext]_pvars /\ WF_pvars(PwNext)
Plain(x) == IF al \in {"poly", "mod"} THEN x.n ELSE x
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([al |-> al, m |-> IF al = "mod" THEN m.n ELSE m, b |-> Plain(b0), e |-> e0, p |-> Z(Prime)])>>, IOEnv.OUT)
=============================================================================
