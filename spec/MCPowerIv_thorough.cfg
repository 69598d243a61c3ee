SPECIFICATION Spec
CONSTANTS Prime = 3
 Both = TRUE
 Algebras = {"iv"}
 Moduli = {1}
 MaxExp = 11
 PolyDeg = 1
 IvBound = 17
 IvPrec = 3
INVARIANTS IvInv Right Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
