------------------------------- MODULE MCGrid -------------------------------
(***************************************************************************)
(* An array, a view of a view of it, and an iteration over that view from  *)
(* both ends, in all combinations of small sizes.  Checked: views of views *)
(* compose, every position of a view is visited exactly once, in order     *)
(* from either end, and writing through a view changes exactly the         *)
(* positions of the view.  Complete walks are written out.                 *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, CSV, IOUtils
CONSTANTS MaxX, MaxY
VARIABLES g, path, ends
vars == <<g, path, ends>>
Ranges(n) == {<<"range", a, b>> : a \in 0..n, b \in 0..n}
Good(n) == {r \in Ranges(n) : r[2] <= r[3]}
Init == /\ \E x \in 0..MaxX, y \in 0..MaxY : g = Build(x, y, LAMBDA px, py : 10 * px + py)
        /\ path = <<>> /\ ends = <<>>
Narrow == /\ Len(path) < 2 /\ ends = <<>>
          /\ LET v == View(g, path) IN
             \E bx \in Good(W(v)), by \in Good(H(v)) : path' = Append(path, <<bx, by>>)
          /\ UNCHANGED <<g, ends>>
StepIt == /\ path # <<>> /\ Len(ends) < Area(View(g, path)) + 1
          /\ \E f \in BOOLEAN : ends' = Append(ends, f)
          /\ UNCHANGED <<g, path>>
Next == Narrow \/ StepIt
Spec == Init /\ [][Next]_vars
V == View(g, path)
Composes == Len(path) = 2 => Cut(g, V) = LET c == Cut(g, View(g, <<path[1]>>)) IN Cut(c, View(c, <<path[2]>>))
w == Walk(Area(V), ends).out
Once == \A m, n \in 1..Len(w) : m # n /\ w[m] >= 0 => w[m] # w[n]
Ordered == \A m, n \in 1..Len(w) : m < n /\ w[m] >= 0 /\ w[n] >= 0 =>
             /\ (ends[m] /\ ends[n]) => w[m] < w[n]
             /\ (~ends[m] /\ ~ends[n]) => w[m] > w[n]
             /\ (ends[m] /\ ~ends[n]) => w[m] < w[n]
             /\ (~ends[m] /\ ends[n]) => w[m] > w[n]
Complete == Len(ends) > Area(V) => {w[n] : n \in 1..Len(w)} = -1..(Area(V) - 1)
FillsView == LET f == FillV(g, V, 1000, ends) IN
  \A px \in 0..(g.x - 1), py \in 0..(g.y - 1) :
    LET inside == px >= V.x0 /\ px < V.x1 /\ py >= V.y0 /\ py < V.y1
        n == (px - V.x0) * H(V) + py - V.y0
    IN  IF inside /\ \E m \in 1..Len(w) : w[m] = n THEN At(f, px, py) >= 1000 ELSE At(f, px, py) = At(g, px, py)
Emit == Len(ends) <= Area(V) \/ path = <<>> \/ CSVWrite("%1$s", <<ToJson([g |-> g, p |-> path, e |-> ends])>>, IOEnv.OUT)
=============================================================================
