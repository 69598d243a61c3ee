SPECIFICATION Spec
CONSTANTS Half = 4
 Stop = "gt"
INVARIANTS InRange NothingMissed Right Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
