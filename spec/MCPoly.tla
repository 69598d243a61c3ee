------------------------------- MODULE MCPoly -------------------------------
(***************************************************************************)
(* Every pair of small polynomials over every kind of coefficient ring.    *)
(* The invariants are the laws that make Poly.tla the specification of a   *)
(* polynomial ring (rather than a transcription of the crate): ring laws,  *)
(* uniqueness of division, greatest common divisors, resultants and root   *)
(* counts.  Every pair is written out; the generators turn each into the   *)
(* operations of the property being checked.                               *)
(***************************************************************************)
EXTENDS Poly, Json, CSV, IOUtils
CONSTANTS Rings, MaxLen, Coefs, Dens
VARIABLES R, a, b
vars == <<R, a, b>>
RingsQ == {[kind |-> "Z", m |-> "0"], [kind |-> "Q", m |-> "0"], [kind |-> "M.i32", m |-> "3"], [kind |-> "M.mod2", m |-> "2"], [kind |-> "R.i32", m |-> "4"]}
CoefsQ == {-1, 0, 2}
CoefsT == {-2, -1, 0, 1, 3}
RingsT == RingsQ \cup {[kind |-> "M.i64", m |-> "5"], [kind |-> "R.u8", m |-> "6"], [kind |-> "M.mod7", m |-> "7"]}
Polys(r) == {Canon(r, s, d) : s \in UNION {[1..n -> {Z(c) : c \in Coefs}] : n \in 0..MaxLen}, d \in {Z(x) : x \in (IF r.kind \in KQ THEN Dens ELSE {1})}}
Init == \E r \in Rings : R = r /\ a \in Polys(r) /\ b \in Polys(r)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* a third polynomial
T == Canon(R, <<"1", "-2", "1">>, IF R.kind \in KQ THEN "3" ELSE "1")
Canonical == Canon(R, a.n, a.d) = a /\ In(R, Out(R, a)) = a
RingLaws ==
  /\ AddP(R, a, b) = AddP(R, b, a) /\ MulP(R, a, b) = MulP(R, b, a)
  /\ MulP(R, a, AddP(R, b, T)) = AddP(R, MulP(R, a, b), MulP(R, a, T))
  /\ MulP(R, a, MulP(R, b, T)) = MulP(R, MulP(R, a, b), T)
  /\ AddP(R, a, AddP(R, b, T)) = AddP(R, AddP(R, a, b), T)
  /\ SubP(R, AddP(R, a, b), b) = a /\ AddP(R, a, Zero(R)) = a /\ MulP(R, a, OneP(R)) = a
  /\ DerivP(R, MulP(R, a, b)) = AddP(R, MulP(R, DerivP(R, a), b), MulP(R, a, DerivP(R, b)))
  /\ \A x \in {Const(R, "2"), Const(R, "-3")} :
       /\ EvalP(R, MulP(R, a, b), x) = MulP(R, EvalP(R, a, x), EvalP(R, b, x))
       /\ EvalP(R, AddP(R, a, b), x) = AddP(R, EvalP(R, a, x), EvalP(R, b, x))
DivisionLaws ==
  LET F == FieldOf(R)  x == Canon(F, a.n, a.d)  y == Canon(F, b.n, b.d) IN
  (R.kind \notin KR /\ ~IsZeroP(b)) =>
    LET d == DivRemF(F, x, y) IN
    /\ AddP(F, MulP(F, d.q, y), d.r) = x /\ Deg(d.r) < Deg(y)
    /\ DivRemF(F, MulP(F, x, y), y) = [q |-> x, r |-> Zero(F)]
GcdLaws ==
  LET F == FieldOf(R)  x == Canon(F, a.n, a.d)  y == Canon(F, b.n, b.d)  t == Canon(F, T.n, T.d) IN
  R.kind \notin KR =>
    LET g == GcdF(F, x, y) IN
    /\ DividesF(F, g, x) /\ DividesF(F, g, y) /\ g = GcdF(F, y, x)
    /\ IsZeroP(g) <=> (IsZeroP(a) /\ IsZeroP(b))
    /\ GcdF(F, MulP(F, x, t), MulP(F, y, t)) = MonicF(F, MulP(F, g, t))
ResLaws ==
  R.kind \notin KR =>
    /\ LET s == ResP(R, b, a) IN
         ResP(R, a, b) = (IF Deg(a) > 0 /\ Deg(b) > 0 /\ (Deg(a) * Deg(b)) % 2 = 1 THEN NegP(R, s) ELSE s)
    /\ IsZeroP(ResP(R, a, b)) <=>
         LET F == FieldOf(R) IN IsZeroP(a) \/ IsZeroP(b) \/ Deg(GcdF(F, Canon(F, a.n, a.d), Canon(F, b.n, b.d))) > 0
    /\ (~IsZeroP(a) /\ ~IsZeroP(b)) => ResP(R, MulP(R, a, T), b) = MulP(R, ResP(R, a, b), ResP(R, T, b))
CountLaws ==      \* roots of products of coprime polynomials add up
  (R.kind = "Z" /\ Deg(a) > 0 /\ Deg(b) > 0 /\ Len(PGcd(a.n, b.n)) = 1) =>
    PCountHalfOpen(PMul(a.n, b.n), "-7", "3", "5", "2") = PCountHalfOpen(a.n, "-7", "3", "5", "2") + PCountHalfOpen(b.n, "-7", "3", "5", "2")
Emit == CSVWrite("%1$s", <<ToJson([kind |-> R.kind, m |-> R.m, a |-> Out(R, a), b |-> Out(R, b)])>>, IOEnv.OUT)
=============================================================================
