SPECIFICATION Spec
CONSTANTS Depth = 2
 Starts <- StartsT
 Rhs <- RhsT
 Ops <- OpsAll
INVARIANTS Enclosed Emit
CHECK_DEADLOCK FALSE
