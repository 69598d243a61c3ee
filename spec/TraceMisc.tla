----------------------------- MODULE TraceMisc ------------------------------
(* Events of primes, subsets, signs, lattices and factorization over prime  *)
(* fields.                                                                   *)
EXTENDS TraceBase, FieldFactor, FiniteSets
La == INSTANCE Lattice
\* ---- primes
BiggestPrime(form) == IF form = "i32" THEN "2147483647" ELSE "4294967291"
RECURSIVE NextPrime(_)
NextPrime(v) == LET w == ZAdd(v, "1") IN IF ZIsPrime(w) THEN w ELSE NextPrime(w)
RECURSIVE PrevPrime(_)
PrevPrime(v) == LET w == ZSub(v, "1") IN IF ZIsPrime(w) THEN w ELSE PrevPrime(w)
MustBeNone(e) == IF e.out.k = "none" THEN "ok" ELSE "should have found nothing, got " \o e.out.k
Primes(e) ==
  LET lo == ZInt(e.a[1])  hi == ZInt(e.a[2])
  IN  MustEqual(e, SelectSeq([j \in 1..(hi - lo + 1) |-> Z(lo + j - 1)], LAMBDA v : ZIsPrime(v)))
\* ---- subsets of lo..hi-1 of the given size, in lexicographic order, the first `limit` of them
Lex(s, t) == \E n \in 1..Len(s) : s[n] < t[n] /\ \A m \in 1..(n - 1) : s[m] = t[m]
RECURSIVE Choose(_, _)
Choose(n, r) == IF r < 0 \/ n < r THEN 0 ELSE IF r = 0 \/ n = r THEN 1 ELSE Choose(n - 1, r - 1) + Choose(n - 1, r)
Subsets(e) ==
  LET size == e.a[1]  lo == e.a[2]  hi == e.a[3]  limit == e.a[4]
      \* an empty range has no subsets to visit
      total == IF hi <= lo THEN 0 ELSE Choose(hi - lo, size)
      want == IF total < limit THEN total ELSE limit
  IN  MustBe(e, LAMBDA r :
        /\ Len(r.v) = want
        /\ r.stopped = (total >= limit /\ want > 0)
        /\ \A n \in 1..Len(r.v) : /\ Len(r.v[n]) = size
                                  /\ \A m \in 1..size : r.v[n][m] >= lo /\ r.v[n][m] < hi /\ (m > 1 => r.v[n][m - 1] < r.v[n][m])
        \* strictly increasing; with the count this is all of them, or the first ones
        /\ \A n \in 1..(Len(r.v) - 1) : Lex(r.v[n], r.v[n + 1])
        /\ (want > 0 => r.v[1] = [m \in 1..size |-> lo + m - 1])
        \* the successor of s is the least tuple above it: raise the last position that can be raised
        /\ \A n \in 1..(Len(r.v) - 1) :
             LET s == r.v[n]  up == {m \in 1..size : s[m] < hi - 1 - (size - m)}
                 p == Max(up)
             IN  r.v[n + 1] = [m \in 1..size |-> IF m < p THEN s[m] ELSE s[p] + 1 + (m - p)], "not the subsets in order")
\* ---- signs: negative is true
Neg(x) == x = "-"
Sg(b) == IF b THEN "-" ELSE "+"
SignOps(e) ==
  LET x == Neg(e.a[1])  y == Neg(e.a[2]) IN
  MustEqual(e, [neg |-> Sg(~x), not |-> Sg(~x), and |-> Sg(x /\ y), or |-> Sg(x \/ y), xor |-> Sg(x # y),
                aand |-> Sg(x /\ y), aor |-> Sg(x \/ y), axor |-> Sg(x # y),
                lt |-> x /\ ~y, eq |-> x = y, cmp |-> IF x = y THEN 0 ELSE IF x THEN -1 ELSE 1, b |-> x, fb |-> e.a[1]])
SignNew(e) == IF ZSgn(e.a[1]) = 0 THEN MustBeNone(e) ELSE MustEqual(e, Sg(ZSgn(e.a[1]) < 0))
\* ---- lattices
VIn(v) == [j \in 1..Len(v) |-> v[j]]
GramSchmidt(e) == LET g == La!Gs(e.a[1]) IN
  MustBe(e, LAMBDA v : /\ Len(v) = Len(g)
                       /\ \A r \in 1..Len(g) : \A j \in 1..Len(g[r]) : REq(v[r][j], g[r][j]), "not the orthogonalised basis")
Lll(e) ==
  LET B == e.a[1]  delta == IF e.form = "delta" THEN e.a[3] ELSE <<"3", "4">>  g == La!Gs(B) IN
  MustBe(e, LAMBDA v : LET h == La!Gs(v) IN
    /\ Len(v) = Len(B)
    /\ \A r \in 1..Len(v) : ~La!VIsZero(h[r])
    /\ La!SameLattice(B, g, v, h) /\ La!SizeReduced(v, h) /\ La!Lovasz(v, h, delta), "not a reduced basis of the lattice")
\* ---- factorization over a prime field
Ddf(e) ==
  LET R == RingOf(e)  f == In(R, e.a[1]) IN
  MustBe(e, LAMBDA v : LET s == [n \in 1..Len(v) |-> In(R, v[n])] IN
    IF IsZeroP(f) THEN Len(s) = 1 /\ IsZeroP(s[1])
    ELSE /\ Len(s) >= 1 /\ s[1] = LcP(R, f)
         /\ \A n \in 2..Len(s) : Monic(R, s[n]) /\ AllOfDegree(R, s[n], n - 1)
         /\ ProdP(R, s) = f, "not the distinct-degree factorization")
\* the argument is a product of distinct irreducible polynomials of degree e.a[2]
Sdf(e) ==
  LET R == RingOf(e)  f == In(R, e.a[1]) IN
  MustBe(e, LAMBDA v : LET s == [n \in 1..Len(v) |-> In(R, v[n])] IN
    /\ Len(s) * e.a[2] = Deg(f)
    /\ \A n \in 1..Len(s) : Monic(R, s[n]) /\ Deg(s[n]) = e.a[2]
    /\ ProdP(R, s) = f, "not the irreducible factors")
Verdict(e) ==
  CASE e.op = "x.primes" -> Primes(e)
    [] e.op = "x.is_prime" -> MustEqual(e, [n \in 1..Len(e.a[1]) |-> ZIsPrime(e.a[1][n])])
    [] e.op = "x.next_prime" -> IF ZCmp(e.a[1], BiggestPrime(e.form)) >= 0 THEN MustBeNone(e)
                                ELSE MustEqual(e, NextPrime(IF ZSgn(e.a[1]) < 0 THEN "0" ELSE e.a[1]))
    [] e.op = "x.prev_prime" -> IF ZCmp(e.a[1], "2") <= 0 THEN MustBeNone(e) ELSE MustEqual(e, PrevPrime(e.a[1]))
    [] e.op = "x.subsets" -> Subsets(e)
    [] e.op = "x.sign" -> SignOps(e)
    [] e.op = "x.sign_new" -> SignNew(e)
    [] e.op = "x.inner" -> MustEqual(e, FoldSeq(LAMBDA j, acc : ZAdd(acc, ZMul(e.a[1][j], e.a[2][j])), "0", [j \in 1..Len(e.a[1]) |-> j]))
    [] e.op = "x.gram_schmidt" -> GramSchmidt(e)
    [] e.op = "x.lll" -> Lll(e)
    [] e.op = "x.ddf" -> Ddf(e)
    [] e.op = "x.sdf" -> Sdf(e)
    [] OTHER -> "unknown operation"
Init == TInit
Next == TStep(Verdict)
Spec == Init /\ [][Next]_tvars
=============================================================================
