SPECIFICATION Spec
CONSTANTS Numbers <- NumbersT
 Operations = {"add", "mul", "recip", "sqrt", "cube"}
 CountRoots = "closed"
INVARIANTS Isolated RightRoot Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
