------------------------------ MODULE MCShrink ------------------------------
(***************************************************************************)
(* IntervalShrinker::shrink, one statement per step, with the cached sign  *)
(* changes of IntervalAndSignChanges.                                      *)
(*                                                                         *)
(* A shrinker narrows an interval that it borrows from the number.  It     *)
(* remembers the Sturm sign changes at the two bounds (cl, ch; NONE when   *)
(* not known yet): they are computed when first needed, replaced when a    *)
(* bound moves, and kept when only the denominator grows.  A number can be *)
(* handed to a new shrinker at any time (Borrow), which knows nothing yet. *)
(*                                                                         *)
(* Roots = FALSE does not look for roots on the bounds (negative control). *)
(* (Leaving the remembered values alone when a bound moves to the middle   *)
(* would be no error: the middle has the same sign changes.)               *)
(***************************************************************************)
EXTENDS Algebraic, Json, CSV, IOUtils
CONSTANTS Numbers, MaxK, Roots
VARIABLES a,             \* the number as it was given
          seq,           \* Sturm sequence of its polynomial
          v,             \* its interval now
          cl, ch,        \* remembered sign changes
          pc, sl, su,    \* program counter and local variables of shrink
          before,        \* the interval when shrink was called
          calls          \* number of calls of the current shrinker
vars == <<a, seq, v, cl, ch, pc, sl, su, before, calls>>
NONE == [known |-> FALSE, n |-> 0, root |-> FALSE]
PosPart(p) == LET c == PContent(p) IN IF c \in {"0", "1"} THEN p ELSE PDivZ(p, ZAbs(c))
RECURSIVE Extend(_)
Extend(s) == LET n == Len(s)  x == s[n - 1]  y == s[n] IN
  IF PDeg(y) = 0 THEN s
  ELSE LET r == PosPart(PPseudo(x, y).r)
           neg == ZSgn(PLc(y)) < 0 /\ (Len(x) - Len(y) + 1) % 2 = 1
       IN  IF r = <<>> THEN s ELSE Extend(Append(s, IF neg THEN r ELSE PNeg(r)))
Sturm(p) == Extend(<<p, PosPart(PDeriv(p))>>)
\* sign changes as the crate counts them: zeros are skipped, the first sign counts as a change
Changes(x, k) ==
  LET s == [j \in 1..Len(seq) |-> PSgnAt(seq[j], x, Pow2(k))]
      r == FoldSeq(LAMBDA t, acc : IF t = 0 \/ t = acc[2] THEN acc ELSE <<acc[1] + 1, t>>, <<0, 0>>, s)
  IN  [known |-> TRUE, n |-> r[1], root |-> s[1] = 0]
Dist(x, y) == IF x < y THEN y - x ELSE x - y
TruncHalf(z) == IF ZSgn(z) >= 0 THEN ZDiv(z, "2") ELSE ZNeg(ZDiv(ZNeg(z), "2"))
Width(w) == RSub(RDyadic(w.hi, w.k), RDyadic(w.lo, w.k))
Exact(w) == w.lo = w.hi

Init == /\ a \in Numbers /\ seq = Sturm(a.p) /\ v = [lo |-> a.lo, hi |-> a.hi, k |-> a.k]
        /\ cl = NONE /\ ch = NONE /\ pc = "idle" /\ sl = NONE /\ su = NONE
        /\ before = v /\ calls = 0
Borrow == /\ pc = "idle" /\ (cl.known \/ ch.known) /\ cl' = NONE /\ ch' = NONE /\ calls' = 0
          /\ UNCHANGED <<a, seq, v, pc, sl, su, before>>
Call == /\ pc = "idle" /\ v.k <= MaxK /\ ~Exact(v)
        /\ pc' = "scale" /\ before' = v /\ calls' = calls + 1 /\ UNCHANGED <<a, seq, v, cl, ch, sl, su>>
Scale == /\ pc = "scale" /\ pc' = "lower"
         /\ v' = (IF ZCmp(ZSub(v.hi, v.lo), "16") < 0 THEN [lo |-> ZAdd(v.lo, v.lo), hi |-> ZAdd(v.hi, v.hi), k |-> v.k + 1] ELSE v)
         /\ UNCHANGED <<a, seq, cl, ch, sl, su, before, calls>>
Lower == /\ pc = "lower" /\ UNCHANGED <<a, seq, su, before, calls>>
         /\ LET s == IF cl.known THEN cl ELSE Changes(v.lo, v.k) IN
            /\ cl' = s /\ sl' = s
            /\ IF s.root /\ Roots THEN v' = [v EXCEPT !.hi = v.lo] /\ ch' = s /\ pc' = "idle"
               ELSE pc' = "upper" /\ UNCHANGED <<v, ch>>
Upper == /\ pc = "upper" /\ UNCHANGED <<a, seq, sl, before, calls>>
         /\ LET s == IF ch.known THEN ch ELSE Changes(v.hi, v.k) IN
            /\ ch' = s /\ su' = s
            /\ IF s.root /\ Roots THEN v' = [v EXCEPT !.lo = v.hi] /\ cl' = s /\ pc' = "idle"
               ELSE pc' = "middle" /\ UNCHANGED <<v, cl>>
Middle == /\ pc = "middle" /\ pc' = "idle" /\ UNCHANGED <<a, seq, sl, su, before, calls>>
          /\ LET m == TruncHalf(ZAdd(v.lo, v.hi))  s == Changes(m, v.k) IN
             IF s.root THEN v' = [v EXCEPT !.lo = m, !.hi = m] /\ cl' = s /\ ch' = s
             ELSE IF s.n = sl.n THEN /\ v' = [v EXCEPT !.lo = m] /\ UNCHANGED ch
                                     /\ cl' = s
             ELSE v' = [v EXCEPT !.hi = m] /\ ch' = s /\ UNCHANGED cl
Next == Borrow \/ Call \/ Scale \/ Lower \/ Upper \/ Middle
Spec == Init /\ [][Next]_vars /\ WF_vars(Call \/ Scale \/ Lower \/ Upper \/ Middle)
-----------------------------------------------------------------------------
Now == [p |-> a.p, lo |-> v.lo, hi |-> v.hi, k |-> v.k]
\* the interval always isolates the number that was given
Isolates == IsNum(Now) /\ Same(a, Now)
\* what is remembered is true of the bounds as they are now
Remembered == /\ cl.known => cl = Changes(v.lo, v.k)
              /\ ch.known => ch = Changes(v.hi, v.k)
\* the assertions in the crate hold: one root between the bounds, and the middle has the sign changes of one of them
Asserted == /\ pc = "middle" => Dist(sl.n, su.n) = 1
            /\ pc = "middle" => LET s == Changes(TruncHalf(ZAdd(v.lo, v.hi)), v.k) IN s.root \/ s.n \in {sl.n, su.n}
\* a call leaves an exact interval, or one narrower by a factor of nearly two, inside the old one
Narrower == (pc = "idle" /\ calls > 0) =>
  /\ RLe(RDyadic(before.lo, before.k), RDyadic(v.lo, v.k)) /\ RLe(RDyadic(v.hi, v.k), RDyadic(before.hi, before.k))
  /\ Exact(v) \/ RLe(RMul(<<"32", "1">>, Width(v)), RMul(<<"17", "1">>, Width(before))) \/ RLe(RMul(<<"2", "1">>, Width(v)), Width(before))
\* sooner or later it is as narrow as one likes
Ends == <>(pc = "idle" /\ (Exact(v) \/ v.k > MaxK))
-----------------------------------------------------------------------------
\* every number, with operations of the crate that shrink its interval
One(o, f) == [s |-> "", kind |-> "", op |-> "a." \o o, form |-> f, a |-> <<a>>]
Fresh == pc = "idle" /\ calls = 0 /\ ~cl.known /\ ~ch.known /\ v = before /\ v = [lo |-> a.lo, hi |-> a.hi, k |-> a.k]
Ops == <<One("ifloor", "r"), One("iceil", "m"), One("sign", ""), One("fract", "r")>>
       \o (IF SgnOf(a) = 0 THEN <<>> ELSE <<One("recip", "c")>>)
       \o (IF SgnOf(a) > 0 THEN <<One("floor_log2", "r"), One("ceil_log2", "m")>> ELSE <<>>)
Emit == (Fresh /\ WellFormed(a)) => CSVWrite("%1$s", <<ToJson(Ops)>>, IOEnv.OUT)
\* isolating intervals of real roots of p with bounds in S over 2^k
Ivs(p, S, K) == {n \in {[p |-> p, lo |-> Z(lo), hi |-> Z(hi), k |-> k] : lo \in S, hi \in S, k \in K} :
                  ZCmp(n.lo, n.hi) <= 0 /\ IsNum(n)}
PolysQ == {<<"-2", "0", "1">>, <<"-1", "-2", "1">>, <<"1", "-3", "0", "1">>, <<"-3", "4">>, <<"-1", "3">>, <<"2", "1">>}
PolysT == PolysQ \cup {<<"-8", "0", "0", "1">>, <<"1", "0", "-10", "0", "1">>, <<"-7", "0", "16">>, <<"-5", "8">>, <<"-1", "-1", "0", "0", "0", "1">>,
                       <<"-101", "0", "1">>, <<"-6", "11", "-6", "1">>}
Narrow == (-3)..3
Wide == {-130, -64, -33, -17, -16, -15, -1, 0, 1, 2, 15, 16, 17, 33, 64, 129}
NumbersQ == UNION {Ivs(p, Narrow, {0, 1}) \cup Ivs(p, Wide, {0, 3}) : p \in PolysQ}
NumbersT == UNION {Ivs(p, (-6)..6, {0, 1, 2}) \cup Ivs(p, Wide, {0, 2, 3, 5}) : p \in PolysT}
=============================================================================
