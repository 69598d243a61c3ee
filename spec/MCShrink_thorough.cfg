SPECIFICATION Spec
CONSTANTS Numbers <- NumbersT
 MaxK = 12
 Roots = TRUE
INVARIANTS Isolates Remembered Asserted Narrower Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
