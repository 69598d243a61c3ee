-------------------------------- MODULE Prs ---------------------------------
(***************************************************************************)
(* Polynomial remainder sequences over the integers.                       *)
(*                                                                         *)
(* The two machines the crate runs, one step per remainder:                *)
(*   "gcd": the subresultant sequence f[i] = prem(f[i-2], f[i-1]) / d      *)
(*          with d = -a * (-c)^(n[i-2]-n[i-1]) and c carried along;        *)
(*   "res": the same sequence written with (psi, beta, delta), with the    *)
(*          resultant accumulated as num / den.                            *)
(* Every division they make is exact only because of the subresultant      *)
(* theorem, for any pattern of degree drops, so the inputs are grown       *)
(* backwards, (u, v) -> (q u + v, u), over quotients of several degrees:   *)
(* every pattern of drops is reached.                                      *)
(* Drop = "any" is the algorithm; "one" is the simpler update that is      *)
(* right as long as degrees drop by one (negative control).                *)
(***************************************************************************)
EXTENDS BigPoly
CONSTANTS Starts, Quots, MaxGrow, Drop
VARIABLES ph, alg, p, q, st
pvars == <<ph, alg, p, q, st>>
ZOdd(n) == n % 2 = 1
ZPowN(b, e) == ZPow(b, e)
SgnPow(e) == IF ZOdd(e) THEN "-1" ELSE "1"
Exact(a, b) == b # "0" /\ ZMod(a, b) = "0"
PExact(r, b) == b # "0" /\ \A j \in 1..Len(r) : ZMod(r[j], b) = "0"

GrowInit == ph = "grow" /\ alg = "" /\ \E s \in Starts : p = s /\ q = <<>> /\ st = [n |-> 0]
Grow == /\ ph = "grow" /\ st.n < MaxGrow
        /\ \E w \in Quots : p' = PAdd(PMul(w, p), q) /\ q' = p /\ PDeg(p') >= PDeg(q')
        /\ st' = [n |-> st.n + 1] /\ UNCHANGED <<ph, alg>>
\* ------------------------------------------------------------- gcd machine
StartGcd == /\ ph = "grow" /\ q # <<>>
            /\ ph' = "run" /\ alg' = "gcd" /\ UNCHANGED <<p, q>>
            /\ st' = [u |-> p, v |-> q, a |-> "1", c |-> "1", i |-> 3]
GDrop == PDeg(st.u) - PDeg(st.v)
GRem == PPrem(st.u, st.v)
GDiv == ZMul(ZNeg(st.a), ZPowN(ZNeg(st.c), GDrop))
\* c * a^drop * c^-drop as factor * base^(e+ - e-): numerator and denominator
GCNum == LET e == PDeg(st.v) + 1 - PDeg(st.u)  f == ZPowN(PLc(st.v), GDrop) IN IF e >= 0 THEN ZMul(f, ZPowN(st.c, e)) ELSE f
GCDen == LET e == PDeg(st.v) + 1 - PDeg(st.u) IN IF e >= 0 THEN "1" ELSE ZPowN(st.c, -e)
GcdStep ==
  /\ ph = "run" /\ alg = "gcd" /\ GRem # <<>>
  /\ st' = [u |-> st.v, v |-> PDivZ(GRem, GDiv), a |-> PLc(st.v),
            c |-> IF Drop = "one" THEN PLc(st.v) ELSE ZDiv(GCNum, GCDen), i |-> st.i + 1]
  /\ UNCHANGED <<ph, alg, p, q>>
GcdEnd == ph = "run" /\ alg = "gcd" /\ GRem = <<>> /\ ph' = "done" /\ UNCHANGED <<alg, p, q, st>>
\* ------------------------------------------------------- resultant machine
StartRes == /\ ph = "grow" /\ q # <<>>
            /\ ph' = "run" /\ alg' = "res" /\ UNCHANGED <<p, q>>
            /\ st' = [u |-> p, v |-> q, i |-> 1, dp |-> 0, psi |-> "0", num |-> "1", den |-> "1"]
RDelta == PDeg(st.u) + 1 - PDeg(st.v)
RF == ZNeg(PLc(st.u))
RPsiNum == ZPowN(RF, st.dp - 1)
RPsiDen == ZPowN(st.psi, st.dp - 2)
RPsi == IF st.i = 1 THEN "-1" ELSE IF st.dp = 1 THEN st.psi ELSE IF Drop = "one" THEN RF ELSE ZDiv(RPsiNum, RPsiDen)
RBeta == IF st.i = 1 THEN SgnPow(RDelta) ELSE ZMul(RF, ZPowN(RPsi, RDelta - 1))
ResStep ==
  /\ ph = "run" /\ alg = "res" /\ PDeg(st.v) > 0 /\ PPrem(st.u, st.v) # <<>>
  /\ LET m == PDeg(st.u)  n == PDeg(st.v)  r == PDivZ(PPrem(st.u, st.v), RBeta) IN
     st' = [u |-> st.v, v |-> r, i |-> st.i + 1, dp |-> RDelta, psi |-> RPsi,
            num |-> ZMul(st.num, ZMul(ZPowN(RBeta, n), SgnPow(m * n))),
            den |-> ZMul(st.den, ZPowN(PLc(st.v), n * RDelta + PDeg(r) - m))]
  /\ UNCHANGED <<ph, alg, p, q>>
ResEnd ==
  /\ ph = "run" /\ alg = "res" /\ (PDeg(st.v) = 0 \/ PPrem(st.u, st.v) = <<>>)
  /\ ph' = "done" /\ UNCHANGED <<alg, p, q>>
  /\ st' = [st EXCEPT !.num = IF PDeg(st.v) = 0 THEN ZMul(@, ZPowN(st.v[1], PDeg(st.u))) ELSE "0"]
Next == Grow \/ StartGcd \/ GcdStep \/ GcdEnd \/ StartRes \/ ResStep \/ ResEnd
-----------------------------------------------------------------------------
\* the j-th subresultant of f, g (deg f >= deg g > j): coefficients are minors of the Sylvester matrix
SubRes(f, g, j) ==
  LET m == PDeg(f)  n == PDeg(g)  N == m + n - 2*j
      row(h, s, e) == [c \in 1..N |-> IF c < N THEN PCoef(h, m + n - j - c - s) ELSE PCoef(h, e - s)]
      mat(e) == [r \in 1..N |-> IF r <= n - j THEN row(f, n - j - r, e) ELSE row(g, m - j - (r - (n - j)), e)]
  IN  PNorm([e \in 1..(j + 1) |-> Det(mat(e - 1))])
Running == ph = "run"
\* every division is exact
GcdExact == (Running /\ alg = "gcd") => PExact(GRem, GDiv) /\ (GRem # <<>> => Exact(GCNum, GCDen))
ResExact == (Running /\ alg = "res" /\ PDeg(st.v) > 0 /\ PPrem(st.u, st.v) # <<>>)
              => /\ (st.i > 1 /\ st.dp > 1) => Exact(RPsiNum, RPsiDen)
                 /\ PExact(PPrem(st.u, st.v), RBeta)
\* from the first remainder on, the members are subresultants of the input up to sign
IsSubresultant ==
  (Running /\ st.i > (IF alg = "gcd" THEN 3 ELSE 1)) =>
    LET s == SubRes(p, q, PDeg(st.u) - 1) IN st.v = s \/ st.v = PNeg(s)
\* degrees drop, so the machines end
Drops == Running => (PDeg(st.u) > PDeg(st.v) \/ st.u = p) /\ st.v # <<>>
SameGcd == Running => PGcd(st.u, st.v) = PGcd(p, q)
GcdRight == (ph = "done" /\ alg = "gcd") => st.v # <<>> /\ PPrim(st.v) = PGcd(p, q)
\* what is left to do times what has been collected is the resultant
ResInvariant == (Running /\ alg = "res") => ZMul(st.den, PRes(p, q)) = ZMul(st.num, PRes(st.u, st.v))
ResRight == (ph = "done" /\ alg = "res") => ZMul(st.den, PRes(p, q)) = st.num
=============================================================================
