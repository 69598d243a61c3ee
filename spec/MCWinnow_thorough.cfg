SPECIFICATION Spec
CONSTANTS N = 4
 F = 4
 How = "closed"
INVARIANTS Kept Right Order
PROPERTY Ends
CHECK_DEADLOCK FALSE
