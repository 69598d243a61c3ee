SPECIFICATION Spec
CONSTANTS W = 5
 Toward = "divisor"
INVARIANTS Nearest
CHECK_DEADLOCK FALSE
