----------------------------- MODULE Recombine ------------------------------
(***************************************************************************)
(* Factorization of square-free primitive integer polynomials:             *)
(*   choose   a prime that divides neither the leading coefficient nor the *)
(*            discriminant (any such prime, where the crate takes the      *)
(*            smallest odd one),                                           *)
(*   order    arrange the monic factors modulo it and the leading          *)
(*            coefficient as the leaves of a comb (any arrangement, where  *)
(*            the crate builds a tree by degree),                          *)
(*   lift     double the exponent of the modulus (quadratic Hensel steps)  *)
(*            until it exceeds twice the bound on coefficients of factors, *)
(*   combine  try products of 1, 2, ... lifted factors.                    *)
(* The input is a product of known irreducible polynomials, so the result  *)
(* is checked against them.                                                *)
(*                                                                         *)
(* Lift = "bound" lifts as far as needed, "none" not at all; Monic = TRUE  *)
(* makes the lifted factors monic before they are combined.  The negative  *)
(* controls MCRecombine_nolift and MCRecombine_nomonic show that neither   *)
(* can be left out (the crate once did the latter).                        *)
(***************************************************************************)
EXTENDS BigPoly, FiniteSets
CONSTANTS Primes, Lift, Monic
VARIABLES ph, true, f, pr, M, leaves, bez, u, size, found
rvars == <<ph, true, f, pr, M, leaves, bez, u, size, found>>
\* ---- polynomials modulo m
PM(p, m) == PNorm([j \in 1..Len(p) |-> ZMod(p[j], m)])
MulM(a, b, m) == PM(PMul(a, b), m)
InvM(c, m) == ZInvMod(ZMod(c, m), m)
MonicM(a, m) == PM(PScale(a, InvM(PLc(a), m)), m)
\* b # 0 with an invertible leading coefficient
DivM(a, b, m) ==
  IF Len(a) < Len(b) THEN [q |-> <<>>, r |-> a]
  ELSE LET i == InvM(PLc(b), m)  s == PPseudo(a, MonicM(b, m)) IN [q |-> PM(PScale(s.quo, i), m), r |-> PM(s.r, m)]
ProdM(s, m) == FoldSeq(LAMBDA g, acc : MulM(acc, g, m), PM(<<"1">>, m), s)
Prod(s) == FoldSeq(LAMBDA g, acc : PMul(acc, g), <<"1">>, s)
\* s, t with s a + t b = 1 modulo the prime m
Bezout(a, b, m) ==
  LET RECURSIVE E(_, _, _, _, _, _)
      E(r0, s0, t0, r1, s1, t1) ==
        IF r1 = <<>> THEN LET i == InvM(PLc(r0), m) IN <<PM(PScale(s0, i), m), PM(PScale(t0, i), m)>>
        ELSE LET d == DivM(r0, r1, m) IN
             E(r1, s1, t1, d.r, PM(PSub(s0, PMul(d.q, s1)), m), PM(PSub(t0, PMul(d.q, t1)), m))
  IN  E(a, <<"1">>, <<>>, b, <<>>, <<"1">>)
\* ---- factors modulo a small prime, by trial division
MonicOfDeg(n, p) == {[j \in 1..(n + 1) |-> IF j = n + 1 THEN "1" ELSE Z(s[j])] : s \in [1..n -> 0..(p - 1)]}
ModFactors(g, p) ==
  LET m == Z(p)
      RECURSIVE F(_, _)
      F(h, n) == IF 2 * n > PDeg(h) THEN (IF PDeg(h) > 0 THEN {h} ELSE {})
                 ELSE LET d == {x \in MonicOfDeg(n, p) : DivM(h, x, m).r = <<>>} IN
                      d \cup F(FoldSet(LAMBDA x, acc : DivM(acc, x, m).q, h, d), n + 1)
  IN  F(MonicM(PM(g, m), m), 1)
SquareFreeM(g, p) ==      \* no common factor with the derivative
  LET m == Z(p)
      RECURSIVE G(_, _)
      G(a, b) == IF b = <<>> THEN a ELSE G(b, DivM(a, b, m).r)
  IN  PDeg(G(PM(g, m), PM(PDeriv(g), m))) = 0
Good(p) == ZMod(PLc(f), Z(p)) # "0" /\ SquareFreeM(f, p)
\* ---- the steps
Orders(S) == LET n == Cardinality(S) IN {o \in [1..n -> S] : Cardinality({o[j] : j \in 1..n}) = n}
RInit(t) == /\ ph = "choose" /\ true = t /\ f = Prod(t) /\ u = Prod(t)
            /\ pr = 0 /\ M = "1" /\ leaves = <<>> /\ bez = <<>> /\ size = 0 /\ found = {}
Tail2(s, j) == SubSeq(s, j + 1, Len(s))
Choose == /\ ph = "choose"
          /\ \E p \in {x \in Primes : Good(x)} : pr' = p /\ M' = Z(p)
          /\ ph' = "order" /\ UNCHANGED <<true, f, leaves, bez, u, size, found>>
Order ==
  /\ ph = "order"
  /\ LET fs == ModFactors(f, pr)
         c == PM(<<PLc(f)>>, M)
         all == IF c = <<"1">> THEN fs ELSE fs \cup {c} IN
     \E o \in Orders(all) :
       /\ leaves' = o
       /\ bez' = [j \in 1..(Len(o) - 1) |-> Bezout(o[j], ProdM(Tail2(o, j), M), M)]
  /\ ph' = "lift" /\ UNCHANGED <<true, f, pr, M, u, size, found>>
\* one quadratic step for a node: g h = F, s g + t h = 1 modulo the old modulus
Step1(g, h, s, t, F, m) ==
  LET e == PM(PSub(F, PMul(g, h)), m)
      d == DivM(MulM(s, e, m), h, m)
      g2 == PM(PAdd(PAdd(g, PMul(t, e)), PMul(d.q, g)), m)
      h2 == PM(PAdd(h, d.r), m)
      b == PM(PSub(PAdd(PMul(s, g2), PMul(t, h2)), <<"1">>), m)
      c == DivM(MulM(s, b, m), h2, m)
  IN  [g |-> g2, h |-> h2, s |-> PM(PSub(s, c.r), m), t |-> PM(PSub(PSub(t, PMul(t, b)), PMul(c.q, g2)), m)]
LiftAll(F, m) ==
  LET n == Len(leaves)
      step(j, acc) ==
        LET r == Step1(leaves[j], ProdM(Tail2(leaves, j), M), bez[j][1], bez[j][2], acc.F, m)
        IN  [F |-> r.h, l |-> Append(acc.l, r.g), b |-> Append(acc.b, <<r.s, r.t>>)]
      z == FoldSeq(step, [F |-> PM(F, m), l |-> <<>>, b |-> <<>>], [j \in 1..(n - 1) |-> j])
  IN  [l |-> Append(z.l, z.F), b |-> z.b]
MaxNorm(p) == FoldSeq(LAMBDA x, acc : IF ZCmp(ZAbs(x), acc) > 0 THEN ZAbs(x) ELSE acc, "0", p)
\* squared: (2 * lc * 2^deg * sqrt(deg + 1) * maxnorm)^2
NeedSq == LET l == ZMul(MaxNorm(f), PLc(f)) IN ZMul(ZMul(ZMul(l, l), ZShl("4", 2 * PDeg(f))), Z(PDeg(f) + 1))
Enough == Lift = "none" \/ ZCmp(ZMul(M, M), NeedSq) > 0
LiftStep ==
  /\ ph = "lift" /\ ~Enough
  /\ LET m == ZMul(M, M)  z == LiftAll(f, m) IN M' = m /\ leaves' = z.l /\ bez' = z.b
  /\ UNCHANGED <<ph, true, f, pr, u, size, found>>
LiftEnd ==
  /\ ph = "lift" /\ Enough
  /\ LET l == SelectSeq(leaves, LAMBDA g : PDeg(g) > 0) IN
     leaves' = IF Monic THEN [j \in 1..Len(l) |-> MonicM(l[j], M)] ELSE l
  /\ ph' = "combine" /\ size' = 1 /\ bez' = <<>>
  /\ UNCHANGED <<true, f, pr, M, u, found>>
Sym(p) == PNorm([j \in 1..Len(p) |-> IF ZCmp(ZMul("2", p[j]), M) > 0 THEN ZSub(p[j], M) ELSE p[j]])
Candidate(S) == PPrim(Sym(FoldSet(LAMBDA j, acc : MulM(acc, leaves[j], M), PM(<<PLc(u)>>, M), S)))
Hits == {S \in kSubset(size, 1..Len(leaves)) : LET c == Candidate(S) IN PDeg(c) > 0 /\ PDivides(c, u)}
Found ==
  /\ ph = "combine" /\ 2 * size <= Len(leaves)
  /\ \E S \in Hits : LET c == Candidate(S)  keep == SetToSortSeq((1..Len(leaves)) \ S, <) IN
       /\ found' = found \cup {c} /\ u' = PPrim(PPseudo(u, c).quo)
       /\ leaves' = [j \in 1..Len(keep) |-> leaves[keep[j]]]
  /\ UNCHANGED <<ph, true, f, pr, M, bez, size>>
Larger == /\ ph = "combine" /\ 2 * size <= Len(leaves) /\ Hits = {}
          /\ size' = size + 1 /\ UNCHANGED <<ph, true, f, pr, M, leaves, bez, u, found>>
Finish == /\ ph = "combine" /\ 2 * size > Len(leaves)
          /\ found' = found \cup {u} /\ u' = <<"1">> /\ ph' = "done"
          /\ UNCHANGED <<true, f, pr, M, leaves, bez, size>>
Next == Choose \/ Order \/ LiftStep \/ LiftEnd \/ Found \/ Larger \/ Finish
-----------------------------------------------------------------------------
\* the leaves multiply to the input and the Bezout coefficients are right, at every modulus
Lifted == ph = "lift" => /\ ProdM(leaves, M) = PM(f, M)
                         /\ \A j \in 1..Len(bez) : PM(PAdd(PMul(bez[j][1], leaves[j]), PMul(bez[j][2], ProdM(Tail2(leaves, j), M))), M) = <<"1">>
\* what they are modulo the prime does not change
SameModP == ph = "lift" => {MonicM(PM(leaves[j], Z(pr)), Z(pr)) : j \in {x \in 1..Len(leaves) : PDeg(leaves[x]) > 0}} = ModFactors(f, pr)
TrueSet == {true[j] : j \in 1..Len(true)}
\* nothing is lost and nothing reducible is reported
Kept == (ph = "combine" /\ Monic) => PPrim(FoldSet(LAMBDA c, acc : PMul(acc, c), u, found)) = f
Sound == found \subseteq TrueSet
Complete == ph = "done" => found = TrueSet
Ends == (\E p \in Primes : Good(p)) => <>(ph = "done")
=============================================================================
