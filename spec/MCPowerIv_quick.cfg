SPECIFICATION Spec
CONSTANTS Prime = 3
 Both = TRUE
 Algebras = {"iv"}
 Moduli = {1}
 MaxExp = 6
 PolyDeg = 1
 IvBound = 6
 IvPrec = 2
INVARIANTS IvInv Right Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
