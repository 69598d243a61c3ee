------------------------------ MODULE MCEuclid ------------------------------
(***************************************************************************)
(* The extended Euclidean algorithm, on integers and, after multiplying    *)
(* with the denominators, on ratios.  Checked for all small pairs: the     *)
(* Bezout identity at every step, the gcd at the end, gcd*lcm = |a*b|, and *)
(* for ratios that both are integral multiples of the gcd and that the     *)
(* lcm is the least common integral multiple.                              *)
(* Quot chooses the rounding of the quotients: "floor" or "trunc"; the     *)
(* results may only differ in the cofactors.                               *)
(***************************************************************************)
EXTENDS Rat, Json, CSV, IOUtils
CONSTANTS Nums, Dens, Quot
NumsQ == -7..7
NumsT == -16..16
VARIABLES ph, x, y, a, b, r0, r1, s0, s1, t0, t1
vars == <<ph, x, y, a, b, r0, r1, s0, s1, t0, t1>>
Q(n, d) == RNorm(<<Z(n), Z(d)>>)
Init == /\ \E n1, n2 \in Nums : \E d1, d2 \in Dens : x = Q(n1, d1) /\ y = Q(n2, d2)
        /\ a = ZMul(x[1], y[2]) /\ b = ZMul(y[1], x[2])
        /\ r0 = a /\ r1 = b /\ s0 = "1" /\ s1 = "0" /\ t0 = "0" /\ t1 = "1" /\ ph = "loop"
TruncDiv(p, q) == LET z == ZDiv(ZAbs(p), ZAbs(q)) IN IF ZSgn(p) * ZSgn(q) < 0 THEN ZNeg(z) ELSE z
\* floor of the quotient for either sign of the divisor
FloorDiv(p, q) == LET t == TruncDiv(p, q) IN
                  IF ZSub(p, ZMul(t, q)) # "0" /\ ZSgn(p) * ZSgn(q) < 0 THEN ZSub(t, "1") ELSE t
Quo(p, q) == IF Quot = "floor" THEN FloorDiv(p, q) ELSE TruncDiv(p, q)
Step == /\ ph = "loop" /\ UNCHANGED <<x, y, a, b>>
        /\ IF r1 = "0"
           THEN /\ ph' = "done" /\ UNCHANGED <<r1, s1, t1>>
                /\ IF ZSgn(r0) < 0 THEN r0' = ZNeg(r0) /\ s0' = ZNeg(s0) /\ t0' = ZNeg(t0) ELSE UNCHANGED <<r0, s0, t0>>
           ELSE LET q == Quo(r0, r1) IN
                /\ ph' = "loop"
                /\ r0' = r1 /\ s0' = s1 /\ t0' = t1
                /\ r1' = ZSub(r0, ZMul(q, r1)) /\ s1' = ZSub(s0, ZMul(q, s1)) /\ t1' = ZSub(t0, ZMul(q, t1))
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Bezout == r0 = ZAdd(ZMul(s0, a), ZMul(t0, b)) /\ r1 = ZAdd(ZMul(s1, a), ZMul(t1, b))
SameGcd == ZGcd(r0, r1) = ZGcd(a, b)
Shrinks == [][ph' = "loop" => ZCmp(ZAbs(r1'), ZAbs(r1)) < 0]_vars
Divs(z) == {n \in 1..(IF z = "0" THEN 1 ELSE ZInt(ZAbs(z))) : ZMod(z, Z(n)) = "0"}
Greatest == ph = "done" =>
  IF a = "0" /\ b = "0" THEN r0 = "0"
  ELSE /\ ZSgn(r0) > 0 /\ ZMod(a, r0) = "0" /\ ZMod(b, r0) = "0"
       /\ \A n \in (IF a = "0" THEN Divs(b) ELSE Divs(a)) : ZMod(a, Z(n)) = "0" /\ ZMod(b, Z(n)) = "0" => ZMod(r0, Z(n)) = "0"
\* back to ratios: divide by the product of the denominators
IsInt(q) == RNorm(q)[2] = "1"
G == RNorm(<<r0, ZMul(x[2], y[2])>>)
L == IF r0 = "0" THEN <<"0", "1">> ELSE RNorm(<<ZAbs(ZDiv(ZMul(a, b), r0)), ZMul(x[2], y[2])>>)
Ratios == ph = "done" =>
  IF r0 = "0" THEN RSgn(x) = 0 /\ RSgn(y) = 0
  ELSE /\ IsInt(RDiv(x, G)) /\ IsInt(RDiv(y, G))
       /\ REq(RAdd(RMul(RInt(s0), x), RMul(RInt(t0), y)), G)
       /\ REq(RMul(G, L), RAbs(RMul(x, y)))
       /\ (RSgn(x) # 0 /\ RSgn(y) # 0) =>
            /\ IsInt(RDiv(L, x)) /\ IsInt(RDiv(L, y))
            /\ \A n \in 1..12 : LET c == RMul(RAbs(x), RInt(Z(n))) IN (RLe(c, L) /\ ~REq(c, L)) => ~IsInt(RDiv(c, y))
Ends == <>(ph = "done")
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([x |-> x, y |-> y])>>, IOEnv.OUT)
=============================================================================
