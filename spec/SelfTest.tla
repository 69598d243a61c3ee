------------------------------ MODULE SelfTest ------------------------------
(* The Java evaluation of BigZ and BigPoly against their TLA+ definitions.  *)
EXTENDS BigPoly, BigReal
Dp == INSTANCE BigPolyDef
Dr == INSTANCE BigRealDef

VARIABLE done
Ints == -13..13
Val2(n) == n
\* ---- BigZ against TLC's own integers
ZOk == \A a, b \in Ints :
  LET x == Z(a)  y == Z(b)  ab == IF a < 0 THEN -a ELSE a IN
  /\ ZInt(x) = a
  /\ ZAdd(x, y) = Z(a + b) /\ ZSub(x, y) = Z(a - b) /\ ZMul(x, y) = Z(a * b) /\ ZNeg(x) = Z(-a)
  /\ ZAbs(x) = Z(ab)
  /\ ZCmp(x, y) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
  /\ ZSgn(x) = (IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1)
  /\ b # 0 => LET q == ZInt(ZDiv(x, y))  r == ZInt(ZMod(x, y)) IN
              /\ a = b * q + r
              /\ (b > 0 => r \in 0..(b-1)) /\ (b < 0 => r \in (b+1)..0)
  /\ LET g == ZInt(ZGcd(x, y)) IN
       IF a = 0 /\ b = 0 THEN g = 0
       ELSE /\ g > 0 /\ ab % g = 0 /\ (IF b < 0 THEN -b ELSE b) % g = 0
            /\ \A e \in 1..13 : (ab % e = 0 /\ (IF b < 0 THEN -b ELSE b) % e = 0) => e <= g
  /\ (b \in 0..5 /\ a # 0) => ZPow(x, b) = Z(a ^ b)
  /\ b \in 0..5 => ZShl(x, b) = Z(a * 2^b) /\ ZShl(x, -b) = Z(a \div 2^b)
  /\ a >= 0 => LET r == ZInt(ZIsqrt(x)) IN r*r <= a /\ (r+1)*(r+1) > a
  /\ LET n == ZBits(x) IN IF a = 0 THEN n = 0 ELSE 2^(n-1) <= ab /\ ab < 2^n
  /\ (b > 0 /\ ZGcd(x, y) = "1") => LET i == ZInt(ZInvMod(x, y)) IN i \in 0..(b-1) /\ (a * i - 1) % b = 0
  /\ (b > 0 /\ a \in 1..4) => \A e \in 0..4 : ZPowMod(x, Z(e), y) = Z((a ^ e) % b)
  /\ ZIsPrime(x) <=> (a > 1 /\ \A e \in 2..(a-1) : a % e # 0)
  /\ IsZ(x) /\ ~IsZ("-0") /\ ~IsZ("01") /\ ~IsZ("")

\* ---- BigPoly against BigPolyDef
C == {"-2", "-1", "0", "1", "3"}
Polys == UNION {{PNorm(s) : s \in [1..n -> C]} : n \in 0..3}
Big == {<<"-1", "0", "1", "7", "2">>, <<"6", "-5", "1">>, <<"123456789012345678901", "-98765432109876", "3", "0", "5">>,
        <<"1", "0", "-10", "0", "1">>, <<"0", "0", "4", "-12", "9">>, <<"-2", "0", "0", "0", "0", "1">>}
POk2(p, q) ==
  /\ PAdd(p, q) = Dp!PAdd(p, q) /\ PSub(p, q) = Dp!PSub(p, q) /\ PMul(p, q) = Dp!PMul(p, q)
  /\ q # <<>> => /\ PPrem(p, q) = Dp!PPrem(p, q) /\ PDivides(q, p) = Dp!PDivides(q, p)
                 /\ PAdd(PMul(Dp!PPseudo(p, q).quo, q), Dp!PPseudo(p, q).r)
                      = PScale(p, ZPow(PLc(q), IF Len(p) >= Len(q) THEN Len(p) - Len(q) + 1 ELSE 0))
  /\ PGcd(p, q) = Dp!PGcd(p, q)
  /\ PRes(p, q) = Dp!PRes(p, q)
POk1(p) ==
  /\ PNeg(p) = Dp!PNeg(p) /\ PDeriv(p) = Dp!PDeriv(p) /\ PContent(p) = Dp!PContent(p)
  /\ PPrim(p) = Dp!PPrim(p) /\ PPow(p, 3) = Dp!PPow(p, 3) /\ PScale(p, "-7") = Dp!PScale(p, "-7")
  /\ PNorm(p \o <<"0", "0">>) = p /\ Dp!PNorm(p \o <<"0", "0">>) = p
  /\ \A n \in {"-3", "0", "5"}, d \in {"1", "4"} : PEvalH(p, n, d) = Dp!PEvalH(p, n, d)
  /\ p # <<>> =>
       /\ PSqFree(p) = Dp!PSqFree(p) /\ PCountAll(p) = Dp!PCountAll(p)
       /\ \A b \in {<<"-3","2">>, <<"0","1">>, <<"7","3">>} :
            /\ PCountHalfOpen(p, "-2", "1", b[1], b[2]) = Dp!PCountHalfOpen(p, "-2", "1", b[1], b[2])
            /\ PCountClosed(p, "-2", "1", b[1], b[2]) = Dp!PCountClosed(p, "-2", "1", b[1], b[2])
       /\ \A lo \in -8..8, n \in {0, 3, 40} :
            PCountClosed(p, Z(lo), "4", Z(lo+1), "4") = 1
              => PRootFloor(p, Z(lo), Z(lo+1), 2, n) = Dp!PRootFloor(p, Z(lo), Z(lo+1), 2, n)
IrrOk == \A p \in UNION {{PNorm(s) : s \in [1..n -> {"-1", "0", "2"}]} : n \in 0..3} \cup {<<"1","0","1","1">>, <<"2","1","1","1">>, <<"-1","0","0","1">>} :
   (Len(p) \in 2..4 /\ PContent(p) = "1") => (PIrreducible(p) <=> Dp!PIrreducible(p))
\* a product is never irreducible; Swinnerton-Dyer and cyclotomic polynomials are
Irr2 == /\ \A p, q \in Big : Len(PPrim(p)) > 1 /\ Len(q) > 1 => ~PIrreducible(PPrim(PMul(p, q)))
        /\ PIrreducible(<<"1","0","-10","0","1">>)
        /\ PIrreducible(<<"576","0","-960","0","352","0","-40","0","1">>)
        /\ PIrreducible(<<"1","-1","0","1","-1","1","0","-1","1">>)
        /\ PIrreducible(<<"-2","0","0","0","0","0","0","1">>)
        /\ PIrreducible(<<"46225","0","-5596840","0","13950764","0","-7453176","0","1513334","0","-141912","0","6476","0","-136","0","1">>)
        /\ ~PIrreducible(<<"1","0","0","0","0","0","0","0","0","1">>)
        /\ ~PIrreducible(PPrim(PMul(<<"1","0","-10","0","1">>, <<"576","0","-960","0","352","0","-40","0","1">>)))
DetOk == \A a, b, c, d \in -2..2 :
   LET m == <<<<Z(a), Z(b), "1">>, <<Z(c), Z(d), "2">>, <<"3", "0", Z(a-d)>>>>
       e == a*(d*(a-d) - 0) - b*(c*(a-d) - 6) + (0 - 3*d)
   IN Det(m) = Z(e) /\ Dp!Det(m) = Z(e)

RealOk ==
  /\ \A n \in {-37, -9, -1, 0, 1, 5, 22}, d \in {1, 4, 7}, k \in {0, 3, 60} :
       ExpFloor(Z(n), Z(d), k) = Dr!ExpFloor(Z(n), Z(d), k)
  /\ \A n \in {1, 2, 3, 10, 99}, d \in {1, 3, 16}, k \in {0, 5, 12} :
       LnFloor(Z(n), Z(d), k) = Dr!LnFloor(Z(n), Z(d), k)
  /\ \A a \in {1, 3, 50}, b \in {2, 7, 1000}, k \in {0, 4, 40} :
       AgmFloor(Z(a), "3", Z(b), "8", k) = Dr!AgmFloor(Z(a), "3", Z(b), "8", k)
  /\ AgmFloor("0", "1", "5", "1", 9) = "0" /\ AgmFloor("5", "3", "5", "3", 9) = "853"
  \* ln and exp invert each other at high precision
  /\ \A n \in {2, 7, 1023} : LET m == LnFloor(Z(n), "5", 300) IN
       /\ ZCmp(ExpFloor(m, Pow2(300), 250), ZDiv(ZMul(Z(n), Pow2(250)), "5")) <= 0
       /\ ZCmp(ExpFloor(ZAdd(m, "1"), Pow2(300), 250), ZDiv(ZMul(Z(n), Pow2(250)), "5")) >= 0

Check(name, v) == Assert(v, <<"SELFTEST FAILED", name>>)
Init == /\ done = FALSE
        /\ Check("BigZ", ZOk)
        /\ Check("poly2", \A p, q \in Polys \cup Big : (Len(p) <= 2 \/ q \in Big \/ Len(q) <= 2) => POk2(p, q))
        /\ Check("poly1", \A p \in Polys \cup Big : POk1(p))
        /\ Check("irr", IrrOk)
        /\ Check("irr2", Irr2)
        /\ Check("det", DetOk)
        /\ Check("real", RealOk)
Next == ~done /\ done' = TRUE /\ PrintT("SELFTEST OK")
Spec == Init /\ [][Next]_done
=============================================================================
