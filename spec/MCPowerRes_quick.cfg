SPECIFICATION Spec
CONSTANTS Prime = 3
 Both = TRUE
 Algebras = {"res"}
 Moduli = {1, 2, 3, 4, 6, 7}
 MaxExp = 17
 PolyDeg = 1
 IvBound = 0
 IvPrec = 0
INVARIANTS LoopInv Right Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
