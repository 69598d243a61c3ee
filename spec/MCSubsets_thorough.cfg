SPECIFICATION Spec
CONSTANTS MaxLo = 2
 MaxLen = 7
 Prune = TRUE
INVARIANTS InOrder Legal NoGap Complete Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
