SPECIFICATION Spec
CONSTANTS Half = 4
 Stop = "ge"
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
