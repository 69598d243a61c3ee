------------------------------ MODULE MCSplit ------------------------------
(***************************************************************************)
(* Factorization over F_p as a state machine: distinct-degree steps peel   *)
(* off the product of the factors of degree 1, 2, ..., then equal-degree   *)
(* steps split a piece with an arbitrary (the random) polynomial.  Checked *)
(* for every monic square-free polynomial of the given degrees and every   *)
(* random choice: the product never changes, every piece only has factors  *)
(* of its degree, and some choice always makes progress until all pieces   *)
(* are irreducible.                                                        *)
(***************************************************************************)
EXTENDS FieldFactor, FiniteSets, Json, CSV, IOUtils
CONSTANTS Prime, MaxDeg
VARIABLES f, rest, d, pieces      \* pieces: set of [p, d]
vars == <<f, rest, d, pieces>>
R == [kind |-> "M.i32", m |-> Z(Prime)]
PolysBelow(n) == {Canon(R, [j \in 1..n |-> Z(s[j])], "1") : s \in [1..n -> 0..(Prime - 1)]}
MonicOf(n) == {Canon(R, [j \in 1..(n + 1) |-> IF j = n + 1 THEN "1" ELSE Z(s[j])], "1") : s \in [1..n -> 0..(Prime - 1)]}
Init == /\ \E n \in 1..MaxDeg : f \in {p \in MonicOf(n) : SquareFree(R, p)}
        /\ rest = f /\ d = 1 /\ pieces = {}
Peel == /\ Deg(rest) > 0
        /\ LET g == GcdF(R, SubP(R, Frob(R, d, rest), RemF(R, X(R), rest)), rest)
           IN  /\ rest' = DivRemF(R, rest, g).q
               /\ pieces' = IF Deg(g) = 0 THEN pieces ELSE pieces \cup {[p |-> g, d |-> d]}
        /\ d' = d + 1 /\ UNCHANGED f
\* the power that maps half of every field of p^d elements to 1
HalfPower(r, p, e) == PowMod(R, r, Z((Prime ^ e - 1) \div 2), p)
SplitWith(h, r) == GcdF(R, SubP(R, HalfPower(r, h.p, h.d), OneP(R)), h.p)
Split == /\ Deg(rest) = 0
         /\ \E h \in {x \in pieces : Deg(x.p) > x.d} : \E r \in PolysBelow(Deg(h.p)) :
              LET g == SplitWith(h, r)
              IN  /\ Deg(g) > 0 /\ Deg(g) < Deg(h.p)
                  /\ pieces' = (pieces \ {h}) \cup {[p |-> g, d |-> h.d], [p |-> DivRemF(R, h.p, g).q, d |-> h.d]}
         /\ UNCHANGED <<f, rest, d>>
Next == Peel \/ Split
Spec == Init /\ [][Next]_vars
ProductKept == FoldSet(LAMBDA h, acc : MulP(R, acc, h.p), rest, pieces) = f
Degrees == \A h \in pieces : AllOfDegree(R, h.p, h.d)
Progress == (Deg(rest) = 0 /\ \E h \in pieces : Deg(h.p) > h.d) => ENABLED Split
Emit == rest # f \/ d > 1 \/ CSVWrite("%1$s", <<ToJson([m |-> R.m, f |-> f.n])>>, IOEnv.OUT)
=============================================================================
