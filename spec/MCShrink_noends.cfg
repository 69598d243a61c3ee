SPECIFICATION Spec
CONSTANTS Numbers <- NumbersQ
 MaxK = 6
 Roots = FALSE
INVARIANTS Isolates Remembered Asserted Narrower Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
