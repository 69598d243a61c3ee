SPECIFICATION Spec
CONSTANTS Prime = 3
 Both = TRUE
 Algebras = {"poly", "mod"}
 Moduli = {1}
 MaxExp = 13
 PolyDeg = 3
 IvBound = 0
 IvPrec = 0
INVARIANTS LoopInv Right Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
