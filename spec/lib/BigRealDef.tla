----------------------------- MODULE BigRealDef -----------------------------
(***************************************************************************)
(* Floors of 2^k times a transcendental function of a rational argument,   *)
(* defined by enclosing partial sums.  (e^q, ln q are irrational for       *)
(* rational q other than 0 and 1, so the two bounds of a fine enough       *)
(* enclosure have the same floor.)                                         *)
(***************************************************************************)
EXTENDS Rat
\* e^q, 0 <= q:  partial sum S_N and S_N + 2*q^N/N!, for N >= 2q
ExpBounds(q, N) ==
  LET step(j, st) == LET t == RNorm(RDiv(RMul(st.t, q), RInt(Z(j)))) IN [t |-> t, s |-> RNorm(RAdd(st.s, t))]
      fin == FoldSeq(step, [t |-> <<"1", "1">>, s |-> <<"1", "1">>], [j \in 1..N |-> j])
  IN  <<fin.s, RAdd(fin.s, RMul(fin.t, <<"2", "1">>))>>
ExpFloor(n, d, k) ==
  IF n = "0" THEN Pow2(k)
  ELSE LET q == <<n, d>>
           RECURSIVE R(_)
           R(N) == LET b == ExpBounds(RAbs(q), N)
                       lo == IF RSgn(q) < 0 THEN RInv(b[2]) ELSE b[1]
                       hi == IF RSgn(q) < 0 THEN RInv(b[1]) ELSE b[2]
                   IN  IF RFloorAt(lo, k) = RFloorAt(hi, k) THEN RFloorAt(lo, k) ELSE R(2 * N)
       IN  R(8 + 2 * ZInt(RCeil(RAbs(q))))
\* ln q: the number y with e^y = q: y >= m/2^k iff e^(m/2^k) <= q, decided by exp's enclosure
ExpLe(m, k, q) ==     \* e^(m/2^k) <= q, for m # 0
  LET RECURSIVE R(_)
      x == RDyadic(m, k)
      R(N) == LET b == ExpBounds(RAbs(x), N)
                  lo == IF RSgn(x) < 0 THEN RInv(b[2]) ELSE b[1]
                  hi == IF RSgn(x) < 0 THEN RInv(b[1]) ELSE b[2]
              IN  IF RLe(hi, q) THEN TRUE ELSE IF ~RLe(lo, q) THEN FALSE ELSE R(2 * N)
  IN  IF m = "0" THEN RLe(<<"1", "1">>, q) ELSE R(8 + 2 * ZInt(RCeil(RAbs(x))))
LnFloor(n, d, k) ==
  LET q == <<n, d>>
      B == Z((ZBits(n) + ZBits(d) + 1) * 2^k)
      RECURSIVE S(_, _)
      S(a, b) == IF ZAdd(a, "1") = b THEN a
                 ELSE LET m == ZDiv(ZAdd(a, b), "2") IN IF ExpLe(m, k, q) THEN S(m, b) ELSE S(a, m)
  IN  S(ZNeg(B), B)
\* arithmetic-geometric mean: between the geometric and the arithmetic mean of every iterate
AgmFloor(an, ad, bn, bd, k) ==
  LET RECURSIVE I(_, _, _)
      w == k + 20
      I(a, b, n) ==     \* a, b: enclosures [lo, hi] / 2^w
        LET m == <<ZShl(ZAdd(a[1], b[1]), -1), ZNeg(ZShl(ZNeg(ZAdd(a[2], b[2])), -1))>>
            g == <<ZIsqrt(ZMul(a[1], b[1])), ZAdd(ZIsqrt(ZMul(a[2], b[2])), "1")>>
        IN  IF n = 0 THEN <<IF ZCmp(m[1], g[1]) < 0 THEN m[1] ELSE g[1], IF ZCmp(m[2], g[2]) > 0 THEN m[2] ELSE g[2]>>
            ELSE I(m, g, n - 1)
      r == I(<<RFloorAt(<<an, ad>>, w), RCeilAt(<<an, ad>>, w)>>, <<RFloorAt(<<bn, bd>>, w), RCeilAt(<<bn, bd>>, w)>>, 12)
  IN  ZShl(r[1], -20)     \* the self test checks that both ends agree
=============================================================================
