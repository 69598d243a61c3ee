SPECIFICATION Spec
CONSTANTS Nums <- NumsT
 Dens = {1, 2, 3, 4, 6, 10}
 Quot = "floor"
INVARIANTS Bezout SameGcd Greatest Ratios Emit
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
