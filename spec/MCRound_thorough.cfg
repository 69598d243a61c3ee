SPECIFICATION RSpec
CONSTANTS Numbers <- NumbersT
 RoundOps = {"floor", "ceil", "floor_log2", "ceil_log2"}
 Operations = {"add"}
 CountRoots = "closed"
INVARIANTS Isolated RightAnswer RightSign Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
