SPECIFICATION Spec
CONSTANTS Depth = 2
 Starts <- StartsQ
 Rhs <- RhsQ
 Ops <- OpsAll
INVARIANTS Enclosed Emit
CHECK_DEADLOCK FALSE
