SPECIFICATION Spec
CONSTANTS
  Prime = 3
  MaxDeg = 4
INVARIANTS ProductKept Degrees Progress Emit
CHECK_DEADLOCK FALSE
