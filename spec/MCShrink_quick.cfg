SPECIFICATION Spec
CONSTANTS Numbers <- NumbersQ
 MaxK = 6
 Roots = TRUE
INVARIANTS Isolates Remembered Asserted Narrower Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
