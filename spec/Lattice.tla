------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Integer lattices: Gram-Schmidt orthogonalisation, membership, reduced   *)
(* bases.  A vector is a sequence of BigZ numerals (or of rationals, for   *)
(* the orthogonalised ones), a basis a sequence of vectors.                *)
(***************************************************************************)
EXTENDS Rat
RZero == <<"0", "1">>
VecR(v) == [j \in 1..Len(v) |-> RInt(v[j])]
Dot(v, w) == RNorm(FoldSeq(LAMBDA j, acc : RAdd(acc, RMul(v[j], w[j])), RZero, [j \in 1..Len(v) |-> j]))
VSub(v, w) == [j \in 1..Len(v) |-> RNorm(RSub(v[j], w[j]))]
VScale(v, q) == [j \in 1..Len(v) |-> RNorm(RMul(v[j], q))]
VIsZero(v) == \A j \in 1..Len(v) : RSgn(v[j]) = 0
\* b*_i = b_i - sum_{j<i} <b_i, b*_j>/<b*_j, b*_j> b*_j   (directions that vanish are left out)
Gs(B) ==
  LET step(i, acc) ==
        LET v == VecR(B[i])
        IN  Append(acc, FoldSeq(LAMBDA j, w : IF VIsZero(acc[j]) THEN w
                                              ELSE VSub(w, VScale(acc[j], RNorm(RDiv(Dot(v, acc[j]), Dot(acc[j], acc[j]))))),
                                v, [j \in 1..Len(acc) |-> j]))
  IN  FoldSeq(step, <<>>, [i \in 1..Len(B) |-> i])
Independent(B) == LET g == Gs(B) IN \A i \in 1..Len(g) : ~VIsZero(g[i])
Mu(B, g, i, j) == RNorm(RDiv(Dot(VecR(B[i]), g[j]), Dot(g[j], g[j])))
\* v is an integer combination of the independent vectors B with orthogonalisation g
InLattice(v, B, g) ==
  LET step(i, st) == IF ~st.ok THEN st
                     ELSE LET c == RNorm(RDiv(Dot(st.v, g[i]), Dot(g[i], g[i])))
                          IN  [ok |-> c[2] = "1", v |-> VSub(st.v, VScale(VecR(B[i]), c))]
      fin == FoldSeq(step, [ok |-> TRUE, v |-> VecR(v)], [n \in 1..Len(B) |-> Len(B) + 1 - n])
  IN  fin.ok /\ VIsZero(fin.v)
\* squared volume of the lattice
Vol2(g) == RNorm(FoldSeq(LAMBDA v, acc : RMul(acc, Dot(v, v)), <<"1", "1">>, g))
SameLattice(A, ga, B, gb) == Len(A) = Len(B) /\ REq(Vol2(ga), Vol2(gb)) /\ \A i \in 1..Len(B) : InLattice(B[i], A, ga)
SizeReduced(B, g) == \A i \in 1..Len(B) : \A j \in 1..(i - 1) : RLe(RAbs(Mu(B, g, i, j)), <<"1", "2">>)
LovaszAt(B, g, k, delta) ==
  LET m == Mu(B, g, k, k - 1)
  IN  RLe(RMul(RSub(delta, RMul(m, m)), Dot(g[k - 1], g[k - 1])), Dot(g[k], g[k]))
Lovasz(B, g, delta) == \A k \in 2..Len(B) : LovaszAt(B, g, k, delta)
Reduced(B, delta) == LET g == Gs(B) IN SizeReduced(B, g) /\ Lovasz(B, g, delta)
=============================================================================
