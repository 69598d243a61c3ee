SPECIFICATION Spec
CONSTANTS Prime = 3
 Both = TRUE
 Algebras = {"poly", "mod"}
 Moduli = {1}
 MaxExp = 9
 PolyDeg = 2
 IvBound = 0
 IvPrec = 0
INVARIANTS LoopInv Right Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
