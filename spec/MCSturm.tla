------------------------------ MODULE MCSturm -------------------------------
(***************************************************************************)
(* Sturm sequences by pseudo-division, one remainder per step, and the     *)
(* counting of roots with them.                                            *)
(*                                                                         *)
(* The input is a product of known linear factors (with multiplicities) and *)
(* factors without real roots, times a constant, so the real roots are     *)
(* known without Sturm's theorem: that is the oracle.                      *)
(* Care = FALSE ignores the sign of the factor that pseudo-division        *)
(* introduces (negative control).                                          *)
(***************************************************************************)
EXTENDS BigPoly, Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Roots, MaxMult, Others, Lead, MaxDeg, Care
VARIABLES ph, mult, oth, lead, sq
vars == <<ph, mult, oth, lead, sq>>
ZS(s) == [j \in 1..Len(s) |-> Z(s[j])]
RootsQ == <<<<-2, 1>>, <<1, 2>>, <<1, 1>>, <<3, 1>>>>
RootsT == <<<<-3, 1>>, <<-1, 2>>, <<0, 1>>, <<1, 3>>, <<1, 1>>, <<2, 1>>>>
OthersQ == {ZS(<<1>>), ZS(<<1, 0, 1>>), ZS(<<3, -1, 2>>), ZS(<<3, -1, 1>>), ZS(<<1, 1, 0, 0, 1>>)}
OthersT == OthersQ \cup {ZS(<<7, 3, 1>>), ZS(<<1, -1, 0, 0, 1>>), ZS(<<5, 0, 0, 2, 0, 0, 1>>)}      \* gaps in the degrees
LeadQ == {1, -1, -3}
LeadT == {1, -1, 6, -10}
N == Len(Roots)
Linear(j) == ZS(<<-Roots[j][1], Roots[j][2]>>)
DegOf(e) == FoldSeq(LAMBDA x, acc : acc + x, 0, e)
Poly0 == PScale(FoldSeq(LAMBDA j, acc : PMul(acc, PPow(Linear(j), mult[j])), oth, [j \in 1..N |-> j]), Z(lead))
Pos(p) == LET c == PContent(p) IN IF c \in {"0", "1"} THEN p ELSE PDivZ(p, ZAbs(c))
Init == /\ mult \in {e \in [1..N -> 0..MaxMult] : DegOf(e) \in 0..MaxDeg}
        /\ oth \in Others /\ lead \in Lead
        /\ ph = "start" /\ sq = <<>>
Start == /\ ph = "start" /\ UNCHANGED <<mult, oth, lead>>
         /\ IF PDeg(Poly0) <= 0 THEN sq' = <<Poly0>> /\ ph' = "done"
            ELSE sq' = <<Poly0, Pos(PDeriv(Poly0))>> /\ ph' = "loop"
Step == /\ ph = "loop" /\ UNCHANGED <<mult, oth, lead>>
        /\ LET n == Len(sq)  a == sq[n - 1]  b == sq[n] IN
           IF b = <<>> \/ n = PDeg(sq[1]) + 1 THEN ph' = "done" /\ UNCHANGED sq
           ELSE LET s == PPseudo(a, b)  k == Len(a) - Len(b) + 1
                    neg == ZSgn(ZPow(PLc(b), k)) < 0
                    r == Pos(s.r)
                IN  /\ sq' = Append(sq, IF Care /\ neg THEN r ELSE PNeg(r))
                    /\ ph' = "loop"
Next == Start \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
\* sign changes as the crate counts them: zeros are skipped, the first sign counts as a change
Signs(x) == [j \in 1..Len(sq) |-> IF sq[j] = <<>> THEN 0 ELSE PSgnAt(sq[j], x[1], x[2])]
Changes(s) == FoldSeq(LAMBDA v, acc : IF v = 0 \/ v = acc[2] THEN acc ELSE <<acc[1] + 1, v>>, <<0, 0>>, s)[1]
At(x) == Changes(Signs(x))
SignsInf(up) == [j \in 1..Len(sq) |-> LET c == ZSgn(PLc(sq[j])) IN IF up \/ PDeg(sq[j]) % 2 = 0 THEN c ELSE -c]
Dist(a, b) == IF a < b THEN b - a ELSE a - b
RootVal(j) == <<Z(Roots[j][1]), Z(Roots[j][2])>>
Active == {j \in 1..N : mult[j] > 0}
\* points: all roots of the pool (roots of the input or not), and points between and around them
Points == {RootVal(j) : j \in 1..N} \cup {<<Z(n), "4">> : n \in {-13, -7, -1, 1, 3, 5, 7, 13}}
IsRoot(x) == \E j \in Active : REq(RootVal(j), x)
Between(x, y) == Cardinality({j \in Active : RLe(x, RootVal(j)) /\ RLe(RootVal(j), y)})
Counts == ph = "done" =>
  /\ \A x, y \in {z \in Points : ~IsRoot(z)} : RLe(x, y) => Dist(At(x), At(y)) = Between(x, y)
  /\ Dist(Changes(SignsInf(TRUE)), Changes(SignsInf(FALSE))) = Cardinality(Active)
\* a simple root at the upper end is counted as well, one at the lower end is not (half-open count)
HalfOpen == (ph = "done" /\ \A j \in Active : mult[j] = 1) =>
  \A x, y \in Points : RLe(x, y) => At(x) - At(y) = Cardinality({j \in Active : ~RLe(RootVal(j), x) /\ RLe(RootVal(j), y)})
\* the sequence ends in the common divisor, possibly followed by zero
EndsInGcd == ph = "done" => LET nz == SelectSeq(sq, LAMBDA p : p # <<>>) IN
  Len(sq) > 1 => PPrim(nz[Len(nz)]) = PPrim(PGcd(Poly0, PDeriv(Poly0)))
NoCommonZero == \A n \in 1..(Len(sq) - 1) : \A j \in 1..N :
  (mult[j] = 0 \/ (mult[j] = 1 /\ ph = "done")) =>
     ~(/\ sq[n] # <<>> /\ sq[n + 1] # <<>>
       /\ PSgnAt(sq[n], RootVal(j)[1], RootVal(j)[2]) = 0 /\ PSgnAt(sq[n + 1], RootVal(j)[1], RootVal(j)[2]) = 0)
Ends == <>(ph = "done")
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([f |-> Poly0])>>, IOEnv.OUT)
=============================================================================
