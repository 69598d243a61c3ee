SPECIFICATION Spec
CONSTANTS Numbers <- NumbersQ
 Operations = {"add", "mul", "recip", "sqrt", "cube"}
 CountRoots = "closed"
INVARIANTS Isolated RightRoot Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
