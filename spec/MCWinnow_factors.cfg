SPECIFICATION Spec
CONSTANTS N = 3
 F = 3
 How = "factors"
INVARIANTS Kept Right Order
PROPERTY Ends
CHECK_DEADLOCK FALSE
