-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* The iterative interval functions, step by step.                         *)
(*                                                                         *)
(* exp:  the bounds are reduced modulo an enclosure of ln 2, the series    *)
(*       sum x^n/n! is summed in interval arithmetic and the two bounds    *)
(*       are shifted back.                                                 *)
(* log:  the bounds are scaled into [3/2, 3), the series for               *)
(*       log((y+1)/(y-1)) is summed for both and shift * ln 2 is added.    *)
(* agm:  arithmetic and geometric means are iterated in interval           *)
(*       arithmetic for as long as their union gets narrower.              *)
(*                                                                         *)
(* Guard is the number of extra bits exp and log work with (the crate uses *)
(* many more; with few, every rounding decision shows in small inputs).    *)
(* Quotient = "directed" is the reduction of the crate; "fixed" divides    *)
(* the lower bound by the upper end of ln 2 and the upper bound by the     *)
(* lower end whatever their signs (the negative control MCIter_fixed,      *)
(* which is what the crate did before it was repaired).                    *)
(***************************************************************************)
EXTENDS Interval
CONSTANTS Guard, Quotient
VARIABLES fn, inp, st
ivars == <<fn, inp, st>>
Ln2(w) == LET f == LnFloor("2", "1", w) IN Iv(f, ZAdd(f, "1"), w)
Pt(a, w) == Iv(a, a, w)
Mul(a, b) == Tight(SetMul(P(a), P(b)), a.k)
Add(a, b) == Tight(SetAdd(P(a), P(b)), a.k)
DivN(a, n) == Tight(SetDiv(P(a), <<RInt(Z(n)), RInt(Z(n))>>), a.k)
Hull(a, b) == Tight(SetUnion(P(a), P(b)), a.k)
Sqr(a) == Iv(SqrtFloorAt(Lo(a), a.k), SqrtCeilAt(Hi(a), a.k), a.k)
Conv(a, k) == Outward(Lo(a), Hi(a), k)
Width(a) == ZSub(a.hi, a.lo)
-----------------------------------------------------------------------------
(* exp *)
ExpPrec(a) == LET l == Ln2(a.k + Guard)  q == ZDiv(ZShl(a.hi, Guard), l.lo) IN
              a.k + Guard + (IF ZSgn(q) > 0 THEN ZInt(q) ELSE 0)
ExpInit(a) == fn = "exp" /\ inp = <<a>> /\ st = [ph |-> "start", w |-> ExpPrec(a)]
ExpReduce ==
  /\ fn = "exp" /\ st.ph = "start"
  /\ LET w == st.w  l == Ln2(w)  a == Conv(inp[1], w)
         L == IF Quotient = "directed" /\ ZSgn(a.lo) < 0 THEN l.lo ELSE l.hi
         H == IF Quotient = "directed" /\ ZSgn(a.hi) < 0 THEN l.hi ELSE l.lo IN
     st' = [ph |-> "series", w |-> w, ql |-> ZInt(ZDiv(a.lo, L)), qh |-> ZInt(ZDiv(a.hi, H)),
            x |-> [lo |-> ZMod(a.lo, L), hi |-> ZMod(a.hi, H), k |-> w],        \* may be upside down
            n |-> 0, term |-> Pt(Pow2(w), w), sum |-> Pt(Pow2(w), w)]
  /\ UNCHANGED <<fn, inp>>
ExpTerm ==
  /\ fn = "exp" /\ st.ph = "series"
  /\ LET t == DivN(Mul(st.term, st.x), st.n + 1) IN
     st' = [st EXCEPT !.n = @ + 1, !.term = t, !.sum = Add(@, t),
                      !.ph = IF t.hi \in {"0", "1"} \/ st.n + 2 >= st.w THEN "shift" ELSE "series"]
  /\ UNCHANGED <<fn, inp>>
ExpShift ==
  /\ fn = "exp" /\ st.ph = "shift"
  /\ st' = [ph |-> "done", w |-> st.w,
            res |-> Conv(Iv(ZShl(st.sum.lo, st.ql), ZNeg(ZShl(ZNeg(st.sum.hi), st.qh)), st.w), inp[1].k)]
  /\ UNCHANGED <<fn, inp>>
\* q * ln 2 against d / 2^w, through 40 more bits of ln 2 (never a tie unless q = 0)
QLn2(q, up, w) == LET f == LnFloor("2", "1", w + 40) IN ZMul(Z(q), IF (q > 0) = up THEN ZAdd(f, "1") ELSE f)
ExpReduced == fn = "exp" /\ st.ph \in {"series", "shift"}
\* 2^ql * e^(x.lo) <= e^lo  and  2^qh * e^(x.hi) >= e^hi
ReductionSound ==
  ExpReduced =>
    LET a == Conv(inp[1], st.w)  d(p, r) == ZShl(ZSub(p, r), 40) IN
    /\ ZCmp(QLn2(st.ql, TRUE, st.w), d(a.lo, st.x.lo)) <= 0
    /\ ZCmp(QLn2(st.qh, FALSE, st.w), d(a.hi, st.x.hi)) >= 0
    /\ ZSgn(st.x.lo) >= 0 /\ ZSgn(st.x.hi) >= 0
\* the current term encloses x^n/n! at both ends of the reduced argument
TermSound ==
  ExpReduced =>
    \A y \in {st.x.lo, st.x.hi} :
      LET f == FoldSeq(LAMBDA j, acc : ZMul(acc, Z(j)), "1", [j \in 1..st.n |-> j])
          v == RDiv(RPow(RDyadic(y, st.w), st.n), RInt(f)) IN
      RLe(Lo(st.term), v) /\ RLe(v, Hi(st.term))
-----------------------------------------------------------------------------
(* log *)
FloorLog2(a) == ZBits(a) - 1
ROne == <<"1", "1">>
LogSide(p, k) ==      \* p > 0 a numerator at precision k: shift and scaled value in [3/2, 3)
  LET s == FloorLog2(p) - k
      v == IF s < 0 THEN RMul(RDyadic(p, k), RInt(Pow2(-s))) ELSE RDiv(RDyadic(p, k), RInt(Pow2(s)))
  IN  IF RCmp(v, <<"3", "2">>) < 0 THEN [s |-> s - 1, v |-> RMul(v, <<"2", "1">>)] ELSE [s |-> s, v |-> v]
LogInit(a) == fn = "log" /\ inp = <<a>> /\ st = [ph |-> "start", w |-> a.k + Guard]
LogScale ==
  /\ fn = "log" /\ st.ph = "start"
  /\ LET w == st.w
         side(p) == LET s == LogSide(p, inp[1].k)
                        y == RDiv(RAdd(s.v, ROne), RSub(s.v, ROne))
                        pw == Outward(y, y, w) IN
                    [s |-> s.s, v |-> RNorm(s.v), p |-> pw, sq |-> Tight(SetPow(P(pw), 2), w), sum |-> Pt("0", w)] IN
     st' = [ph |-> "series", w |-> w, n |-> 0, side |-> <<side(inp[1].lo), side(inp[1].hi)>>]
  /\ UNCHANGED <<fn, inp>>
LogTerm ==
  /\ fn = "log" /\ st.ph = "series"
  /\ LET step(d) == LET den == Tight(SetMul(P(d.p), <<RInt(Z(2*st.n + 1)), RInt(Z(2*st.n + 1))>>), st.w)
                        t == Outward(RDiv(<<"2", "1">>, Hi(den)), RDiv(<<"2", "1">>, Lo(den)), st.w) IN
                    [d EXCEPT !.sum = Add(@, t), !.p = Mul(@, d.sq)] IN
     st' = [st EXCEPT !.side = [j \in {1, 2} |-> step(st.side[j])], !.n = @ + 1,
                      !.ph = IF st.n + 1 >= st.w \div 2 + 2 THEN "shift" ELSE "series"]
  /\ UNCHANGED <<fn, inp>>
LogShift ==
  /\ fn = "log" /\ st.ph = "shift"
  /\ LET up(v) == [v EXCEPT !.hi = ZAdd(@, "1")]     \* the rest of the series
         k2 == Mul(Iv(ZShl(Z(st.side[1].s), st.w), ZShl(Z(st.side[2].s), st.w), st.w), Ln2(st.w)) IN
     st' = [ph |-> "done", w |-> st.w, res |-> Conv(Add(k2, Hull(up(st.side[1].sum), up(st.side[2].sum))), inp[1].k)]
  /\ UNCHANGED <<fn, inp>>
\* v = 2^s * scaled, with the scaled value in [3/2, 3)
ScaleSound ==
  (fn = "log" /\ st.ph = "series") =>
    \A j \in {1, 2} :
      LET d == st.side[j]  p == RDyadic(IF j = 1 THEN inp[1].lo ELSE inp[1].hi, inp[1].k) IN
      /\ REq(p, IF d.s < 0 THEN RDiv(d.v, RInt(Pow2(-d.s))) ELSE RMul(d.v, RInt(Pow2(d.s))))
      /\ RLe(<<"3", "2">>, d.v) /\ RCmp(d.v, <<"3", "1">>) < 0
      /\ RLe(<<"2", "1">>, Lo(d.p)) 
\* the partial sums stay below the logarithm and within the tail estimate of it
PartialSound ==
  (fn = "log" /\ st.ph = "shift") =>
    \A j \in {1, 2} : LET d == st.side[j]  f == LnFloorAt(d.v, st.w) IN ZCmp(d.sum.lo, f) <= 0 /\ ZCmp(ZAdd(d.sum.hi, "1"), ZAdd(f, "1")) >= 0
-----------------------------------------------------------------------------
(* arithmetic-geometric mean *)
AgmInit(a, b) ==
  /\ fn = "agm" /\ inp = <<a, b>>
  /\ LET k == MaxN(a.k, b.k)  x == Conv(a, k)  y == Conv(b, k) IN
     st = [ph |-> "loop", w |-> k, am |-> DivN(Add(x, y), 2), gm |-> Sqr(Mul(x, y)), res |-> Hull(x, y)]
AgmNext == Hull(st.am, st.gm)
AgmStep ==
  /\ fn = "agm" /\ st.ph = "loop" /\ ZCmp(Width(AgmNext), Width(st.res)) < 0
  /\ st' = [st EXCEPT !.res = AgmNext, !.am = DivN(Add(st.am, st.gm), 2), !.gm = Sqr(Mul(st.am, st.gm))]
  /\ UNCHANGED <<fn, inp>>
AgmEnd ==
  /\ fn = "agm" /\ st.ph = "loop" /\ ZCmp(Width(AgmNext), Width(st.res)) >= 0
  /\ st' = [st EXCEPT !.ph = "done"]
  /\ UNCHANGED <<fn, inp>>
MeanLo == AgmFloorAt(Lo(inp[1]), Lo(inp[2]), st.w)
MeanHi == AgmCeilAt(Hi(inp[1]), Hi(inp[2]), st.w)
Holds(v, lo, hi) == IsIv(v) /\ ZCmp(v.lo, lo) <= 0 /\ ZCmp(v.hi, hi) >= 0
\* every iterate already encloses the mean: the loop may stop anywhere
AgmSound == fn = "agm" => Holds(st.res, MeanLo, MeanHi) /\ Holds(AgmNext, MeanLo, MeanHi)
AgmNarrows == [][(fn = "agm" /\ st'.res # st.res) => ZCmp(Width(st'.res), Width(st.res)) < 0]_ivars
-----------------------------------------------------------------------------
INext == ExpReduce \/ ExpTerm \/ ExpShift \/ LogScale \/ LogTerm \/ LogShift \/ AgmStep \/ AgmEnd
Done == st.ph = "done"
\* the result is an enclosure
ResultSound ==
  Done => CASE fn = "exp" -> Holds(st.res, ExpFloorAt(Lo(inp[1]), inp[1].k), ExpCeilAt(Hi(inp[1]), inp[1].k))
            [] fn = "log" -> Holds(st.res, LnFloorAt(Lo(inp[1]), inp[1].k), LnCeilAt(Hi(inp[1]), inp[1].k))
            [] fn = "agm" -> Holds(st.res, MeanLo, MeanHi)
\* and for points a close one
PointTight == (Done /\ fn \in {"exp", "log"} /\ inp[1].lo = inp[1].hi /\ Guard >= 5) => ZCmp(Width(st.res), "6") <= 0
Ends == <>Done
=============================================================================
