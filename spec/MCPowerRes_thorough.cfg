SPECIFICATION Spec
CONSTANTS Prime = 3
 Both = TRUE
 Algebras = {"res"}
 Moduli = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13}
 MaxExp = 40
 PolyDeg = 1
 IvBound = 0
 IvPrec = 0
INVARIANTS LoopInv Right Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
