-------------------------------- MODULE BigZ --------------------------------
(***************************************************************************)
(* Unbounded integers for TLC.                                             *)
(*                                                                         *)
(* TLC evaluates TLA+ integers with 32-bit machine words.  The numbers the *)
(* algebraics crate produces do not fit, so every integer of the           *)
(* specification that may be large is carried as its canonical decimal     *)
(* numeral, a string: "0", "7", "-12".  Each operator below is *defined*   *)
(* over the mathematical integers through Val; java/BigZ.java gives TLC an *)
(* implementation of exactly these operators on top of                     *)
(* java.math.BigInteger (SelfTest.tla compares the two on a grid).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Val(s) == CHOOSE n \in Int : ToString(n) = s     \* numeral -> integer
Z(n)   == ToString(n)                            \* integer -> numeral

ZInt(a)    == Val(a)                             \* only for small numerals
ZAdd(a, b) == Z(Val(a) + Val(b))
ZSub(a, b) == Z(Val(a) - Val(b))
ZMul(a, b) == Z(Val(a) * Val(b))
ZNeg(a)    == Z(-Val(a))
ZAbs(a)    == Z(IF Val(a) < 0 THEN -Val(a) ELSE Val(a))
ZCmp(a, b) == IF Val(a) < Val(b) THEN -1 ELSE IF Val(a) = Val(b) THEN 0 ELSE 1
ZSgn(a)    == IF Val(a) < 0 THEN -1 ELSE IF Val(a) = 0 THEN 0 ELSE 1
\* floored quotient and remainder, b # 0: a = b*q + r, r has the sign of b
ZDiv(a, b) == Z(IF Val(b) > 0 THEN Val(a) \div Val(b) ELSE (-Val(a)) \div (-Val(b)))
ZMod(a, b) == ZSub(a, ZMul(b, ZDiv(a, b)))
\* non-negative greatest common divisor, ZGcd("0","0") = "0"
ZGcd(a, b) == IF a = "0" /\ b = "0" THEN "0"
              ELSE Z(CHOOSE d \in Nat :
                       /\ ZMod(a, Z(d)) = "0" /\ ZMod(b, Z(d)) = "0"
                       /\ \A e \in Nat : (e > 0 /\ ZMod(a, Z(e)) = "0" /\ ZMod(b, Z(e)) = "0") => e <= d)
ZPow(a, n)  == Z(Val(a) ^ n)                     \* n \in Nat
ZShl(a, n)  == IF n >= 0 THEN Z(Val(a) * 2^n) ELSE ZDiv(a, Z(2^(-n)))
\* floor of the square root of a >= 0
ZIsqrt(a)   == Z(CHOOSE r \in Nat : r*r <= Val(a) /\ (r+1)*(r+1) > Val(a))
\* number of bits of |a|; 0 for "0"
ZBits(a)    == IF a = "0" THEN 0
               ELSE CHOOSE n \in Nat : 2^(n-1) <= Val(ZAbs(a)) /\ Val(ZAbs(a)) < 2^n
\* x with 0 <= x < |m| and b*x = 1 (mod m); only if gcd(b, m) = 1
ZInvMod(b, m) == Z(CHOOSE x \in 0..(Val(ZAbs(m))-1) : ZMod(Z(Val(b)*x - 1), ZAbs(m)) = "0")
\* b^e mod |m|, e >= 0
ZPowMod(b, e, m) == ZMod(ZPow(b, Val(e)), ZAbs(m))
ZIsPrime(a) == Val(a) > 1 /\ \A d \in 2..(Val(a)-1) : ZMod(a, Z(d)) # "0"
IsZ(s) == \E n \in Int : ToString(n) = s
=============================================================================
