SPECIFICATION Spec
CONSTANTS N = 3
 F = 3
 How = "closed"
INVARIANTS Kept Right Order
PROPERTY Ends
CHECK_DEADLOCK FALSE
