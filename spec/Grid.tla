-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Two-dimensional arrays as maps from positions to values.                *)
(*                                                                         *)
(* g = [x, y, d]: sizes and the values, column after column.  A view is a  *)
(* rectangle [x0, x1, y0, y1] (half open) of the array; a view of a view   *)
(* is given relative to it.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
At(g, px, py) == g.d[px * g.y + py + 1]
In2(g, px, py) == px >= 0 /\ px < g.x /\ py >= 0 /\ py < g.y
Build(x, y, F(_, _)) == [x |-> x, y |-> y, d |-> IF x * y = 0 THEN <<>> ELSE [n \in 1..(x * y) |-> F((n - 1) \div y, (n - 1) % y)]]
Put(g, px, py, v) == [g EXCEPT !.d[px * g.y + py + 1] = v]
Whole(g) == [x0 |-> 0, x1 |-> g.x, y0 |-> 0, y1 |-> g.y]
\* extent of a bound within 0..size, as <<start, end>>
Extent(b, size) ==
  CASE b[1] = "full" -> <<0, size>>
    [] b[1] = "at" -> <<b[2], b[2] + 1>>
    [] b[1] = "range" -> <<b[2], b[3]>>
    [] b[1] = "from" -> <<b[2], size>>
    [] b[1] = "to" -> <<0, b[2]>>
    [] b[1] = "incl" -> <<b[2], b[3] + 1>>
    [] b[1] = "toincl" -> <<0, b[2] + 1>>
    [] b[1] = "between" -> <<b[2] + 1, b[3]>>
GoodExtent(e, size) == e[1] <= e[2] /\ e[2] <= size
W(v) == v.x1 - v.x0
H(v) == v.y1 - v.y0
\* the view reached from v by the path of bounds; NoView if a bound is out of range
NoView == [x0 |-> 0, x1 |-> -1, y0 |-> 0, y1 |-> -1]
Sub(v, b) ==
  IF v = NoView THEN v
  ELSE LET ex == Extent(b[1], W(v))  ey == Extent(b[2], H(v)) IN
       IF ~GoodExtent(ex, W(v)) \/ ~GoodExtent(ey, H(v)) THEN NoView
       ELSE [x0 |-> v.x0 + ex[1], x1 |-> v.x0 + ex[2], y0 |-> v.y0 + ey[1], y1 |-> v.y0 + ey[2]]
View(g, path) == FoldSeq(LAMBDA b, v : Sub(v, b), Whole(g), path)
Area(v) == W(v) * H(v)
\* n-th position (from 0) of the view, relative to it
Pos(v, n) == <<n \div H(v), n % H(v)>>
Cut(g, v) == Build(W(v), H(v), LAMBDA px, py : At(g, v.x0 + px, v.y0 + py))
\* walking a view of n positions from both ends: the position numbers taken, -1 when exhausted
Walk(n, ends) ==
  LET step(f, st) == IF st.lo > st.hi THEN [st EXCEPT !.out = Append(@, -1), !.lens = Append(@, 0)]
                     ELSE IF f THEN [lo |-> st.lo + 1, hi |-> st.hi, out |-> Append(st.out, st.lo), lens |-> Append(st.lens, st.hi - st.lo)]
                     ELSE [lo |-> st.lo, hi |-> st.hi - 1, out |-> Append(st.out, st.hi), lens |-> Append(st.lens, st.hi - st.lo)]
  IN  FoldSeq(step, [lo |-> 0, hi |-> n - 1, out |-> <<>>, lens |-> <<n>>], ends)
Visit(g, v, ends) == LET w == Walk(Area(v), ends).out IN
  [n \in 1..Len(w) |-> IF w[n] < 0 THEN <<>>
                       ELSE LET p == Pos(v, w[n]) IN <<p[1], p[2], At(g, v.x0 + p[1], v.y0 + p[2])>>]
FillV(g, v, val, ends) ==
  LET w == SelectSeq(Walk(Area(v), ends).out, LAMBDA p : p >= 0)
  IN  FoldSeq(LAMBDA n, acc : LET p == Pos(v, w[n]) IN Put(acc, v.x0 + p[1], v.y0 + p[2], val + n - 1), g, [n \in 1..Len(w) |-> n])
SwapV(g, v, a, b) == LET p == At(g, v.x0 + a[1], v.y0 + a[2])  q == At(g, v.x0 + b[1], v.y0 + b[2]) IN
                     Put(Put(g, v.x0 + a[1], v.y0 + a[2], q), v.x0 + b[1], v.y0 + b[2], p)
InV(v, px, py) == px < W(v) /\ py < H(v)
\* an edit through a view; the sequence of edits stops at the first that is out of range
EditOk(v, ed) == CASE ed[1] = "set" -> InV(v, ed[2], ed[3])
                   [] ed[1] = "swap" -> InV(v, ed[2], ed[3]) /\ InV(v, ed[4], ed[5])
                   [] ed[1] = "fill" -> TRUE
EditV(g, v, ed) == CASE ed[1] = "set" -> Put(g, v.x0 + ed[2], v.y0 + ed[3], ed[4])
                     [] ed[1] = "swap" -> SwapV(g, v, <<ed[2], ed[3]>>, <<ed[4], ed[5]>>)
                     [] ed[1] = "fill" -> FillV(g, v, ed[2], ed[3])
\* ---- iterators: a walk of some steps without, some with, and again some without positions, and then the last of what is left
\* positions still to come after the steps `ends`
Left(v, ends) == LET w == Walk(Area(v), ends) IN [j \in 1..(w.hi - w.lo + 1) |-> Pos(v, w.lo + j - 1)]
WalkOf(g, v, mut, s1, s2, s3, val) ==
  LET ends == s1 \o s2 \o s3
      seen == Visit(g, v, ends)
      left == Left(v, ends)
      lastp == left[Len(left)]
  IN  [seq |-> [n \in 1..Len(seen) |-> IF seen[n] = <<>> \/ n \in (Len(s1) + 1)..(Len(s1) + Len(s2)) THEN seen[n] ELSE <<seen[n][3]>>],
       pos |-> <<Left(v, <<>>), Left(v, s1), Left(v, s1 \o s2), left>>,
       last |-> IF left = <<>> THEN <<>> ELSE <<At(g, v.x0 + lastp[1], v.y0 + lastp[2])>>,
       g |-> IF mut THEN FillV(g, v, val, Append(ends, FALSE)) ELSE g]
\* ---- text: rows of cells padded to the widest cell of their column
Cat(ss) == FoldSeq(LAMBDA x, acc : acc \o x, "", ss)
Times(c, n) == Cat([j \in 1..n |-> c])
Cell(g, px, py) == ToString(At(g, px, py))
ColWidth(g, px) == Max({1} \cup {Len(Cell(g, px, py)) : py \in 0..(g.y - 1)})
Padded(g, px, py) == LET c == Cell(g, px, py) IN c \o Times(" ", ColWidth(g, px) - Len(c))
Ruler(g) == Cat([px \in 1..g.x |-> "+" \o Times("-", ColWidth(g, px - 1) + 2)]) \o "+"
RowText(g, py, ruled) == IF ruled THEN Cat([px \in 1..g.x |-> "| " \o Padded(g, px - 1, py) \o " "]) \o "|"
                         ELSE "[" \o Cat([px \in 1..g.x |-> " " \o Padded(g, px - 1, py) \o " "]) \o "]"
GridText(g, ruled) ==
  IF g.x * g.y = 0 THEN "[x_size=" \o ToString(g.x) \o ", y_size=" \o ToString(g.y) \o "]\n"
  ELSE (IF ruled THEN Ruler(g) \o "\n" ELSE "") \o
       Cat([r \in 1..g.y |-> RowText(g, r - 1, ruled) \o (IF ruled THEN "\n" \o Ruler(g) ELSE "") \o (IF r < g.y THEN "\n" ELSE "")])
=============================================================================
