------------------------------ MODULE BigPoly ------------------------------
(* The operators of BigPolyDef.tla; java/BigPoly.java evaluates the ones   *)
(* listed below faster (same results, see SelfTest.tla).                   *)
EXTENDS BigZ, SequencesExt, FiniteSetsExt
D == INSTANCE BigPolyDef
PNorm(s) == D!PNorm(s)
PIsNorm(s) == Len(s) = 0 \/ s[Len(s)] # "0"
PDeg(p)    == Len(p) - 1
PCoef(p, i) == IF i + 1 \in 1..Len(p) THEN p[i + 1] ELSE "0"
PLc(p)     == IF p = <<>> THEN "0" ELSE p[Len(p)]
PShift(p, n) == D!PShift(p, n)
PAdd(p, q) == D!PAdd(p, q)
PNeg(p)    == D!PNeg(p)
PSub(p, q) == D!PSub(p, q)
PScale(p, c) == D!PScale(p, c)
PMul(p, q) == D!PMul(p, q)
PPow(p, n) == D!PPow(p, n)
PDeriv(p)  == D!PDeriv(p)
PEvalH(p, num, den) == D!PEvalH(p, num, den)
PEval(p, x) == PEvalH(p, x, "1")
PSgnAt(p, num, den) == ZSgn(PEvalH(p, num, den))
PContent(p) == D!PContent(p)
PDivZ(p, c) == D!PDivZ(p, c)
PPrim(p)    == D!PPrim(p)
PPrem(p, q) == D!PPrem(p, q)
PPseudo(p, q) == D!PPseudo(p, q)
PGcd(p, q) == D!PGcd(p, q)
PSqFree(p) == D!PSqFree(p)
PDivides(q, p) == D!PDivides(q, p)
Det(m)     == D!Det(m)
PRes(p, q) == D!PRes(p, q)
PCountHalfOpen(p, an, ad, bn, bd) == D!PCountHalfOpen(p, an, ad, bn, bd)
PCountClosed(p, an, ad, bn, bd) == D!PCountClosed(p, an, ad, bn, bd)
PCountAll(p) == D!PCountAll(p)
PRootFloor(p, lo, hi, k, n) == D!PRootFloor(p, lo, hi, k, n)
PIrreducible(p) == D!PIrreducible(p)
=============================================================================
