SPECIFICATION Spec
CONSTANTS Prime = 3
 Both = FALSE
 Algebras = {"iv"}
 Moduli = {1}
 MaxExp = 6
 PolyDeg = 1
 IvBound = 6
 IvPrec = 2
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
