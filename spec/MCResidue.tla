------------------------------ MODULE MCResidue ------------------------------
(***************************************************************************)
(* A register machine over the residues modulo m: the accumulator walks    *)
(* through the ring by the operations of the crate.  Invariants: the ring  *)
(* laws and the laws of units, for every m and every pair of residues.     *)
(* Every behaviour of Depth steps is written out as a session.             *)
(***************************************************************************)
EXTENDS Residue, FiniteSets, Json, CSV, IOUtils
CONSTANTS Moduli, Depth
VARIABLES m, a, b, hist
vars == <<m, a, b, hist>>
Res(mm) == {Z(x) : x \in 0..(mm - 1)}
Ops == {"add", "sub", "mul", "neg", "inv", "div"}
Init == \E mm \in Moduli : m = Z(mm) /\ a \in Res(mm) /\ b \in Res(mm) /\ hist = <<a>>
Do(op) ==
  /\ Len(hist) <= Depth
  /\ hist' = Append(hist, op)
  /\ UNCHANGED <<m, b>>
  /\ a' = CASE op = "add" -> MAdd(a, b, m)
            [] op = "sub" -> MSub(a, b, m)
            [] op = "mul" -> MMul(a, b, m)
            [] op = "neg" -> MNeg(a, m)
            [] op = "inv" -> IF MUnit(a, m) THEN MInv(a, m) ELSE a
            [] op = "div" -> IF MUnit(b, m) THEN MDiv(a, b, m) ELSE a
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Canonical == a \in Res(ZInt(m))
RingLaws ==
  /\ MAdd(a, b, m) = MAdd(b, a, m) /\ MMul(a, b, m) = MMul(b, a, m)
  /\ MSub(MAdd(a, b, m), b, m) = a /\ MAdd(a, MNeg(a, m), m) = "0"
  /\ \A c \in Res(ZInt(m)) : /\ MMul(a, MAdd(b, c, m), m) = MAdd(MMul(a, b, m), MMul(a, c, m), m)
                             /\ MMul(a, MMul(b, c, m), m) = MMul(MMul(a, b, m), c, m)
UnitLaws ==
  /\ MUnit(b, m) => MMul(b, MInv(b, m), m) = "1" /\ MMul(MDiv(a, b, m), b, m) = a
  /\ (m # "1") => (MUnit(b, m) <=> \E c \in Res(ZInt(m)) : MMul(b, c, m) = "1")
PowLaws == /\ MPow(a, "0", m) = MRed("1", m)
           /\ \A n \in 0..8 : MPow(a, Z(n + 1), m) = MMul(MPow(a, Z(n), m), a, m)
Emit == Len(hist) <= Depth \/ CSVWrite("%1$s", <<ToJson([m |-> m, b |-> b, hist |-> hist])>>, IOEnv.OUT)
=============================================================================
