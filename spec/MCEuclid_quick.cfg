SPECIFICATION Spec
CONSTANTS Nums <- NumsQ
 Dens = {1, 2, 3, 6}
 Quot = "floor"
INVARIANTS Bezout SameGcd Greatest Ratios Emit
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
