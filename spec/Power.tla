------------------------------- MODULE Power --------------------------------
(***************************************************************************)
(* Raising to a power by squaring, as the crate does it in four places:    *)
(* modular integers, polynomials, polynomials modulo a polynomial and      *)
(* intervals (there with directed rounding after every product).           *)
(*                                                                         *)
(* Algebra selects the monoid:                                             *)
(*   "res"   residues modulo m                                             *)
(*   "poly"  polynomials over F_p                                          *)
(*   "mod"   polynomials over F_p modulo m                                 *)
(*   "iv"    intervals lo..hi over 2^m                                     *)
(* Intervals are handled as the crate does: magnitudes are sorted, powered *)
(* with one rounded down and one rounded up (both up if the signs differ), *)
(* and put back.  Both = FALSE rounds the smaller magnitude down always,   *)
(* as the crate did before it was repaired (negative control).             *)
(***************************************************************************)
EXTENDS FieldFactor, Interval
CONSTANTS Prime, Both
VARIABLES ph, al, m, b0, e0,      \* the task
          b, e, acc,              \* the loop; acc = <<>> until the first factor, then <<value>>
          sg                      \* intervals: signs and order of the bounds
pvars == <<ph, al, m, b0, e0, b, e, acc, sg>>
None == "none"
F == [kind |-> "M.i32", m |-> Z(Prime)]
Half(z) == ZShl(z, -1)
Odd(z) == ZMod(z, "2") = "1"
\* the magnitude x*y/2^k rounded down or up
ShrDown(z, k) == ZShl(z, -k)
ShrUp(z, k) == ZNeg(ZShl(ZNeg(z), -k))
MulI(x, y, k, up) == IF up THEN ShrUp(ZMul(x, y), k) ELSE ShrDown(ZMul(x, y), k)
Times(x, y) ==
  CASE al = "res" -> ZMod(ZMul(x, y), m)
    [] al = "poly" -> MulP(F, x, y)
    [] al = "mod" -> MulMod(F, x, y, m)
    [] al = "iv" -> <<MulI(x[1], y[1], m, sg.up), MulI(x[2], y[2], m, TRUE)>>
Reduced(x) == CASE al = "res" -> ZMod(x, m) [] al = "mod" -> RemF(F, x, m) [] OTHER -> x
Unit1 == CASE al = "res" -> ZMod("1", m) [] al = "poly" -> OneP(F) [] al = "mod" -> RemF(F, OneP(F), m)
           [] al = "iv" -> <<Pow2(m), Pow2(m)>>
NoSign == [ln |-> FALSE, un |-> FALSE, sw |-> FALSE, up |-> FALSE]
PwInit(a, mm, base, ex) ==
  /\ al = a /\ m = mm /\ b0 = base /\ e0 = ex /\ ph = "start" /\ b = None /\ e = "0" /\ acc = <<>> /\ sg = NoSign
Start ==
  /\ ph = "start"
  /\ UNCHANGED <<al, m, b0, e0>>
  /\ IF e0 = "0" THEN ph' = "done" /\ acc' = <<Unit1>> /\ UNCHANGED <<b, e, sg>>
     ELSE IF e0 = "1" THEN ph' = "done" /\ acc' = <<Reduced(b0)>> /\ UNCHANGED <<b, e, sg>>
     ELSE IF al # "iv" THEN ph' = "loop" /\ b' = Reduced(b0) /\ e' = e0 /\ UNCHANGED <<acc, sg>>
     ELSE LET l == b0[1]  u == b0[2]
              ln == ZSgn(l) < 0  un == ZSgn(u) < 0
              sw == ZCmp(ZAbs(l), ZAbs(u)) > 0 \/ (ln /\ un)
              s == IF sw THEN <<ZAbs(u), ZAbs(l)>> ELSE <<ZAbs(l), ZAbs(u)>>
              even == ~Odd(e0)
              zero == ZSgn(l) <= 0 /\ ZSgn(u) >= 0
          IN  /\ ph' = "loop" /\ e' = e0 /\ acc' = <<<<Pow2(m), Pow2(m)>>>>
              /\ b' = IF even /\ zero THEN <<"0", s[2]>> ELSE s
              /\ sg' = IF even THEN NoSign ELSE [ln |-> ln, un |-> un, sw |-> sw, up |-> Both /\ ln # un]
Loop ==
  /\ ph = "loop"
  /\ acc' = IF ~Odd(e) THEN acc ELSE IF acc = <<>> THEN <<b>> ELSE <<Times(acc[1], b)>>
  /\ e' = Half(e)
  /\ IF e' = "0" THEN ph' = "done" /\ UNCHANGED b ELSE ph' = "loop" /\ b' = Times(b, b)
  /\ UNCHANGED <<al, m, b0, e0, sg>>
PwNext == Start \/ Loop
-----------------------------------------------------------------------------
RECURSIVE Rep(_, _)                    \* n-fold product
Rep(x, n) == IF n = 0 THEN Unit1 ELSE Times(Rep(x, n - 1), x)
Got == IF acc = <<>> THEN Unit1 ELSE acc[1]
\* what is still to be multiplied in
LoopInv == (ph = "loop" /\ al # "iv") => Times(Got, Rep(b, ZInt(e))) = Rep(Reduced(b0), ZInt(e0))
Result == IF al # "iv" THEN Got
          ELSE IF e0 \in {"0", "1"} THEN Got
          ELSE LET s == IF sg.sw THEN <<Got[2], Got[1]>> ELSE Got
               IN  <<IF sg.ln THEN ZNeg(s[1]) ELSE s[1], IF sg.un THEN ZNeg(s[2]) ELSE s[2]>>
Right == ph = "done" =>
  IF al # "iv" THEN Result = Rep(Reduced(b0), ZInt(e0))
  ELSE LET S == SetPow(P(Iv(b0[1], b0[2], m)), ZInt(e0))  v == Iv(Result[1], Result[2], m)
       IN  IsIv(v) /\ RLe(Lo(v), S[1]) /\ RLe(S[2], Hi(v))
\* magnitudes stay between the exact powers and stay in order
IvInv == (al = "iv" /\ ph = "loop") => ZCmp(Got[1], Got[2]) <= 0 /\ ZCmp(b[1], b[2]) <= 0 /\ ZSgn(b[1]) >= 0
Ends == <>(ph = "done")
=============================================================================
