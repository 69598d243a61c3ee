------------------------------- MODULE MCYun --------------------------------
(***************************************************************************)
(* Square-free factorization by Yun's algorithm, one gcd per step.         *)
(*                                                                         *)
(* The input is a product of known pairwise coprime factors with known     *)
(* exponents (gaps between the exponents included); b, c, d are the        *)
(* polynomials of the algorithm, found the factors so far.                 *)
(* Init = "gcd" starts from gcd(f, f'); Skip = TRUE leaves out exponents   *)
(* without a factor (negative control: positions then lie).                *)
(***************************************************************************)
EXTENDS BigPoly, Json, CSV, IOUtils
CONSTANTS Factors, MaxExp, MaxDeg, Contents, Skip
VARIABLES ph, ex, cont, f, b, d, found
vars == <<ph, ex, cont, f, b, d, found>>
ZS(s) == [j \in 1..Len(s) |-> Z(s[j])]
FactorsQ == <<ZS(<<1, 2>>), ZS(<<-1, 1>>), ZS(<<0, 1>>), ZS(<<1, 0, 1>>), ZS(<<-2, 1, 0, 2>>)>>
FactorsT == FactorsQ \o <<ZS(<<5, -3, 1>>)>>
ContentsQ == {<<"1", "1">>, <<"-6", "1">>, <<"5", "4">>}
\* product of the factors whose exponent satisfies the test, each to the power given
ProdOver(test(_), pow(_)) == FoldSeq(LAMBDA j, acc : IF test(ex[j]) THEN PMul(acc, PPow(Factors[j], pow(ex[j]))) ELSE acc,
                                     <<"1">>, [j \in 1..Len(Factors) |-> j])
DegOf(e) == FoldSeq(LAMBDA j, acc : acc + PDeg(Factors[j]) * e[j], 0, [j \in 1..Len(Factors) |-> j])
Quo(x, y) == LET s == PPseudo(x, y)  k == IF Len(x) < Len(y) THEN 0 ELSE Len(x) - Len(y) + 1 IN PDivZ(s.quo, ZPow(PLc(y), k))   \* exact
Init == /\ ex \in {e \in [1..Len(Factors) -> 0..MaxExp] : DegOf(e) \in 1..MaxDeg}
        /\ cont \in Contents /\ ph = "start" /\ b = <<>> /\ d = <<>> /\ found = <<>>
        /\ f = ProdOver(LAMBDA e : TRUE, LAMBDA e : e)
Start == /\ ph = "start" /\ ph' = "loop"
         /\ LET a0 == PGcd(f, PDeriv(f))  b0 == Quo(f, a0) IN
            b' = b0 /\ d' = PSub(Quo(PDeriv(f), a0), PDeriv(b0))
         /\ UNCHANGED <<ex, cont, f, found>>
Step == /\ ph = "loop"
        /\ LET a == PGcd(b, d)  nb == Quo(b, a)  c == Quo(d, a) IN
           /\ b' = nb /\ d' = PSub(c, PDeriv(nb))
           /\ found' = IF Skip /\ Len(a) = 1 THEN found ELSE Append(found, a)
           /\ ph' = IF Len(nb) = 1 THEN "done" ELSE "loop"
        /\ UNCHANGED <<ex, cont, f>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
N == Len(found)
Up(x) == PPrim(x)
\* b holds what is still to be found, once each
Rest == (ph # "start" /\ ~Skip) => b = ProdOver(LAMBDA e : e > N, LAMBDA e : 1)
\* the i-th factor found is the product of the factors of exponent i
Right == ~Skip => \A i \in 1..N : found[i] = ProdOver(LAMBDA e : e = i, LAMBDA e : 1)
\* observable form: square-free, pairwise coprime, recomposing
Recomposes == ph = "done" =>
  /\ FoldSeq(LAMBDA i, acc : PMul(acc, PPow(found[i], i)), <<"1">>, [i \in 1..N |-> i]) = f
  /\ \A i \in 1..N : PSqFree(found[i]) = found[i]
  /\ \A i, j \in 1..N : i # j => Len(PGcd(found[i], found[j])) = 1
NotLonger == ph = "done" => (N > 0 /\ Len(found[N]) > 1)      \* no empty tail
Ends == <>(ph = "done")
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([f |-> f, c |-> cont])>>, IOEnv.OUT)
=============================================================================
