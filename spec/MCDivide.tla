------------------------------ MODULE MCDivide ------------------------------
(***************************************************************************)
(* Pseudo-division of polynomials with a common denominator, one quotient  *)
(* coefficient per step as the crate does it: the leading coefficient of   *)
(* the remainder is the next quotient coefficient, the rest of the         *)
(* remainder is multiplied by the leading coefficient of the divisor and   *)
(* reduced; at the end the quotient coefficients are scaled to a common    *)
(* factor and the denominators are put back.  Division over a field and    *)
(* exact division follow by dividing by the factor.                        *)
(* Rescale = FALSE leaves out the last scaling (negative control).         *)
(***************************************************************************)
EXTENDS BigPoly, Rat, Json, CSV, IOUtils
CONSTANTS CoefA, CoefB, LenA, LenB, Dens, Rescale
VARIABLES ph, a, da, b, db,       \* the dividend a/da and the divisor b/db
          r, q, j                 \* remainder (fixed length), quotient coefficients, highest first, steps
vars == <<ph, a, da, b, db, r, q, j>>
CoefAQ == {-1, 0, 2}
CoefAT == {-2, -1, 0, 1, 3}
CoefBQ == {-2, 0, 1}
CoefBT == {-2, 0, 1, 3}
Tuples(C, n) == UNION {[1..k -> {Z(c) : c \in C}] : k \in 0..n}
Init == /\ a \in {s \in Tuples(CoefA, LenA) : PIsNorm(s)} /\ b \in {s \in Tuples(CoefB, LenB) : PIsNorm(s) /\ s # <<>>}
        /\ da \in Dens /\ db \in Dens
        /\ ph = "loop" /\ r = a /\ q = <<>> /\ j = 0
Lc == PLc(b)
QLen == IF Len(a) < Len(b) THEN 0 ELSE 1 + Len(a) - Len(b)
Loop == /\ ph = "loop" /\ UNCHANGED <<a, da, b, db>>
        /\ IF j = QLen THEN ph' = "scale" /\ UNCHANGED <<r, q, j>>
           ELSE LET c == Last(r)  w == [n \in 1..(Len(r) - 1) |-> ZMul(r[n], Lc)]  at == QLen - 1 - j
                IN  /\ r' = [n \in 1..Len(w) |-> IF n - at \in 1..(Len(b) - 1) THEN ZSub(w[n], ZMul(c, b[n - at])) ELSE w[n]]
                    /\ q' = Append(q, c) /\ j' = j + 1 /\ ph' = "loop"
\* the coefficient found in step n still lacks the factor Lc^(QLen - n)
Scale == /\ ph = "scale" /\ ph' = "done" /\ UNCHANGED <<a, da, b, db, r, j>>
         /\ q' = IF Rescale THEN [n \in 1..QLen |-> ZMul(q[n], ZPow(Lc, QLen - n))] ELSE q
Next == Loop \/ Scale
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
\* the quotient after j steps, in place, times the powers still due
Partial == PNorm(Reverse([n \in 1..QLen |-> IF n <= j THEN ZMul(q[n], ZPow(Lc, j - n)) ELSE "0"]))
LoopInv == ph \in {"loop", "scale"} =>
  /\ Len(r) = Len(a) - j
  /\ PAdd(PMul(Partial, b), PNorm(r)) = PScale(a, ZPow(Lc, j))
\* the results: numerators over denominators
F == <<ZPow(Lc, QLen), ZPow(Z(db), QLen)>>
QuoN == PNorm(Reverse(q))
QuoD == IF QLen = 0 THEN "1" ELSE ZMul(ZPow(Z(db), QLen - 1), Z(da))
RemN == PNorm(r)
RemD == ZMul(ZPow(Z(db), QLen), Z(da))
\* a/da * F = quo * b/db + rem, cross-multiplied
Identity == ph = "done" =>
  /\ Len(RemN) < Len(b)
  /\ PScale(PScale(a, F[1]), ZMul(ZMul(QuoD, Z(db)), RemD))
       = PAdd(PScale(PMul(QuoN, b), ZMul(ZMul(Z(da), F[2]), RemD)), PScale(RemN, ZMul(ZMul(Z(da), F[2]), ZMul(QuoD, Z(db)))))
Unique == ph = "done" => LET s == PPseudo(a, b) IN
  \* agrees with the definition of pseudo-division
  QLen > 0 => QuoN = s.quo /\ RemN = s.r
Ends == <>(ph = "done")
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([a |-> a, da |-> Z(da), b |-> b, db |-> Z(db)])>>, IOEnv.OUT)
=============================================================================
