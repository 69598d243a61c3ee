------------------------------ MODULE TraceMod ------------------------------
(* Events of modular integers, judged by Residue.tla.                       *)
EXTENDS TraceBase, Residue, JsonShape
M1(e) == IF IsArr(e.m) THEN e.m[1] ELSE e.m
M2(e) == IF IsArr(e.m) THEN e.m[2] ELSE e.m
\* a value: the integer it was given as, or what another event returned
In(v) == IF IsArr(v) THEN v[1] ELSE v
Bin(e, f(_, _, _)) ==
  IF M1(e) # M2(e) THEN MustRefuse(e)
  ELSE MustEqual(e, <<f(In(e.a[1]), In(e.a[2]), M1(e)), M1(e)>>)
Plain(e) ==
  LET m == M1(e)  a == In(e.a[1])  b == IF Len(e.a) > 1 THEN In(e.a[2]) ELSE "0" IN
  MustEqual(e, CASE e.form \in {"reduce", "reduce_assign"} -> MRed(a, m)
                 [] e.form \in {"add_rr", "add_rm"} -> MAdd(a, b, m)
                 [] e.form \in {"sub_rr", "sub_mm", "sub_mr", "sub_rm"} -> MSub(a, b, m)
                 [] e.form \in {"mul_rr", "mul_rm"} -> MMul(a, b, m)
                 [] e.form = "neg_r" -> MNeg(a, m))
Div(e) ==
  LET m == M1(e)  a == In(e.a[1])  b == In(e.a[2])
      refuse == IF e.form \in CheckedAssign
                THEN Need(e.out.k = "err" /\ e.out.v = <<MRed(a, m), m>>, "should have failed and left its operand as it was")
                ELSE MustRefuse(e)
  IN  IF M1(e) # M2(e)
      THEN (IF e.form \in CheckedForms \cup CheckedAssign THEN Need(e.out.k # "ok", "different moduli divided") ELSE MustRefuse(e))
      ELSE IF ~MUnit(b, m) THEN refuse
      ELSE MustEqual(e, <<MDiv(a, b, m), m>>)
\* what the static moduli say about themselves
Static(e) == LET m == M1(e) IN
  MustBe(e, LAMBDA v : /\ v.m = m /\ v.disp = m /\ v.mu8 = m /\ v.mbig = m
                       /\ ZIsPrime(v.base) /\ v.exp >= 1 /\ ZPow(v.base, v.exp) = m, "not this modulus")
\* what wrappers that only claim something about a modulus make of it: nothing
Wrapped(e) == LET m == M1(e)
                  same(w) == /\ \A j \in 1..Len(w.v) : w.v[j] = m
                             /\ \A j \in 1..Len(w.t) : w.t[j] = m
                             /\ \A j \in 1..Len(w.b) : w.b[j] = m /\ w.e[j] = 1
              IN  MustBe(e, LAMBDA v : same(v.u8) /\ same(v.i64) /\ same(v.u128) /\ same(v.big) /\ v.static = <<"7", "5", "3">>, "not this modulus")
Verdict(e) ==
  LET m == M1(e) IN
  CASE e.op = "m.wrap" -> Wrapped(e)
    [] e.kind = "static" -> Static(e)
    [] e.op \in {"m.new", "m.conv"} -> MustEqual(e, <<MRed(In(e.a[1]), m), m>>)
    [] e.op = "m.add" -> Bin(e, MAdd)
    [] e.op = "m.sub" -> Bin(e, MSub)
    [] e.op = "m.mul" -> Bin(e, MMul)
    [] e.op = "m.neg" -> MustEqual(e, <<MNeg(In(e.a[1]), m), m>>)
    [] e.op = "m.eq" -> LET q == m = M2(e) /\ MRed(In(e.a[1]), m) = MRed(In(e.a[2]), M2(e)) IN
                        MustBe(e, LAMBDA v : v.eq = q /\ v.ne = ~q /\ v.match = (m = M2(e)) /\ (q => v.hash), "wrong equality or hash")
    [] e.op = "m.text" -> MustEqual(e, "mod_int(" \o MRed(In(e.a[1]), m) \o ", " \o m \o ")")
    [] e.op = "m.reduce" -> Plain(e)
    [] e.op = "m.inv" -> IF MUnit(In(e.a[1]), m) THEN MustEqual(e, <<MInv(In(e.a[1]), m), m>>) ELSE MustRefuse(e)
    [] e.op = "m.div" -> Div(e)
    [] e.op = "m.pow" -> MustEqual(e, MPow(In(e.a[1]), e.a[2], m))
    [] OTHER -> "unknown operation"
Init == TInit
Next == TStep(Verdict)
Spec == Init /\ [][Next]_tvars
=============================================================================
