----------------------------- MODULE TraceGrid ------------------------------
(* Events of the two-dimensional array.                                     *)
EXTENDS TraceBase, Grid
Rect(e, k) == <<<<<<"range", e.a[k], e.a[k + 1]>>, <<"range", e.a[k + 2], e.a[k + 3]>>>>>>
GridEq(e, g) == MustEqual(e, g)
Guard(v, e, ok) == IF v = NoView THEN MustRefuse(e) ELSE ok
Edit(e) == LET g == e.a[1]  v == View(g, e.a[2]) IN
  IF v = NoView \/ \E n \in 1..Len(e.a[3]) : ~EditOk(v, e.a[3][n]) THEN MustRefuse(e)
  ELSE GridEq(e, FoldSeq(LAMBDA ed, acc : EditV(acc, v, ed), g, e.a[3]))
ViewV(e) == LET g == e.a[1]  v == View(g, e.a[2]) IN
  IF v = NoView THEN MustRefuse(e)
  ELSE LET c == Cut(g, v)  w == Walk(Area(v), e.a[3]) IN
       MustBe(e, LAMBDA o : /\ o.x = c.x /\ o.y = c.y /\ o.d = c.d /\ o.seq = Visit(g, v, e.a[3]) /\ o.lens = w.lens
                            /\ o.count = w.lens[Len(w.lens)]
                            /\ o.last = (IF c.d = <<>> THEN <<>> ELSE <<c.d[Len(c.d)]>>), "the view shows something else")
Verdict(e) ==
  LET g == e.a[1] IN
  CASE e.op = "g.from_data" -> IF e.a[1] * e.a[2] # Len(e.a[3]) THEN MustRefuse(e) ELSE GridEq(e, [x |-> e.a[1], y |-> e.a[2], d |-> e.a[3]])
    [] e.op = "g.filled" -> GridEq(e, Build(e.a[1], e.a[2], LAMBDA px, py : e.a[3]))
    [] e.op = "g.generated" -> MustEqual(e, [g |-> Build(e.a[1], e.a[2], LAMBDA px, py : px * 100 + py),
                                             order |-> IF e.a[1] * e.a[2] = 0 THEN <<>>
                                                       ELSE [n \in 1..(e.a[1] * e.a[2]) |-> <<(n - 1) \div e.a[2], (n - 1) % e.a[2]>>]])
    [] e.op = "g.get" -> IF In2(g, e.a[2], e.a[3]) THEN MustEqual(e, At(g, e.a[2], e.a[3])) ELSE MustRefuse(e)
    [] e.op = "g.set" -> IF In2(g, e.a[2], e.a[3]) THEN GridEq(e, Put(g, e.a[2], e.a[3], e.a[4])) ELSE MustRefuse(e)
    [] e.op = "g.swap" -> IF In2(g, e.a[2], e.a[3]) /\ In2(g, e.a[4], e.a[5])
                          THEN GridEq(e, SwapV(g, Whole(g), <<e.a[2], e.a[3]>>, <<e.a[4], e.a[5]>>)) ELSE MustRefuse(e)
    [] e.op = "g.cut" -> LET v == View(g, Rect(e, 2)) IN Guard(v, e, GridEq(e, Cut(g, v)))
    [] e.op = "g.fill" -> LET v == View(g, Rect(e, 2)) IN Guard(v, e, GridEq(e, FillV(g, v, e.a[6], e.a[7])))
    [] e.op = "g.visit" -> LET v == View(g, Rect(e, 2)) IN Guard(v, e, MustEqual(e, Visit(g, v, e.a[6])))
    [] e.op = "g.into_visit" -> MustEqual(e, Visit(g, Whole(g), e.a[2]))
    [] e.op = "g.view" -> ViewV(e)
    [] e.op = "g.edit" -> Edit(e)
    [] e.op = "g.walk" -> LET v == View(g, e.a[2]) IN
         Guard(v, e, MustEqual(e, WalkOf(g, v, e.form \in {"iter_mut", "mut_into", "mut_slice_into"}, e.a[3], e.a[4], e.a[5], e.a[6])))
    [] e.op = "g.text" -> LET v == View(g, e.a[2]) IN Guard(v, e, MustEqual(e, GridText(Cut(g, v), e.form = "ruled")))
    [] e.op = "g.data_mut" -> IF e.a[2] < Len(g.d) THEN GridEq(e, [g EXCEPT !.d[e.a[2] + 1] = e.a[3]]) ELSE MustRefuse(e)
    [] e.op = "g.into_data" -> MustEqual(e, g.d)
    [] e.op = "g.lit" -> GridEq(e, g)
    [] OTHER -> "unknown operation"
Init == TInit
Next == TStep(Verdict)
Spec == Init /\ [][Next]_tvars
=============================================================================
