SPECIFICATION Spec
CONSTANTS
  Prime = 5
  MaxDeg = 4
INVARIANTS ProductKept Degrees Progress Emit
CHECK_DEADLOCK FALSE
