------------------------------ MODULE MCLattice ------------------------------
(***************************************************************************)
(* Lattice basis reduction as a state machine: size-reduce vector k, then  *)
(* advance or swap.  Ties of the rounding are left open.  Checked for all  *)
(* the bases over Entries: every state spans the initial lattice, the      *)
(* first k - 1 vectors are reduced, a swap lowers the potential, and the   *)
(* algorithm only stops with a reduced basis.                              *)
(***************************************************************************)
EXTENDS Lattice, FiniteSets, Json, CSV, IOUtils
CONSTANTS N, Dim, Entries, Delta
EntriesDef == {-2, -1, 0, 1, 3}
Entries3 == {-1, 0, 2}
DeltaDef == <<"3", "4">>
VARIABLES start, basis, k, pot
vars == <<start, basis, k, pot>>
Vecs == [1..Dim -> {Z(x) : x \in Entries}]
\* D = product of the squared volumes of the leading sublattices
Potential(B) == LET g == Gs(B) IN
  RNorm(FoldSeq(LAMBDA i, acc : RMul(acc, Vol2(SubSeq(g, 1, i))), <<"1", "1">>, [i \in 1..Len(B) |-> i]))
Init == /\ basis \in [1..N -> Vecs] /\ Independent(basis)
        /\ start = basis /\ k = 2 /\ pot = Potential(basis)
\* the integers nearest to q
Nearest(q) == LET f == RFloor(q)  d == RSub(q, RInt(f)) IN
              IF RCmp(d, <<"1", "2">>) < 0 THEN {f} ELSE IF RCmp(d, <<"1", "2">>) > 0 THEN {ZAdd(f, "1")} ELSE {f, ZAdd(f, "1")}
RECURSIVE SizeReduceFrom(_, _)
SizeReduceFrom(B, j) ==
  IF j = 0 THEN {B}
  ELSE UNION {SizeReduceFrom([B EXCEPT ![k] = [y \in 1..Dim |-> ZSub(B[k][y], ZMul(c, B[j][y]))]], j - 1)
              : c \in IF RLe(RAbs(Mu(B, Gs(B), k, j)), <<"1", "2">>) THEN {"0"} ELSE Nearest(Mu(B, Gs(B), k, j))}
Step == /\ k <= N
        /\ \E B \in SizeReduceFrom(basis, k - 1) :
             IF LovaszAt(B, Gs(B), k, Delta)
             THEN basis' = B /\ k' = k + 1 /\ pot' = pot
             ELSE /\ basis' = [B EXCEPT ![k] = B[k - 1], ![k - 1] = B[k]]
                  /\ k' = IF k > 2 THEN k - 1 ELSE 2
                  /\ pot' = Potential(basis')
        /\ UNCHANGED start
Next == Step
Spec == Init /\ [][Next]_vars
SameL == SameLattice(start, Gs(start), basis, Gs(basis))
Prefix == LET B == SubSeq(basis, 1, k - 1) IN Reduced(B, Delta)
Done == k > N => Reduced(basis, Delta)
\* termination: every step raises k or lowers the (positive, integral) potential by the factor Delta
Progress == [][(k' = k + 1 /\ pot' = pot) \/ RLe(pot', RMul(Delta, pot))]_vars
Emit == (basis # start \/ k # 2) \/ CSVWrite("%1$s", <<ToJson(start)>>, IOEnv.OUT)
=============================================================================
