SPECIFICATION Spec
CONSTANTS CoefA <- CoefAQ
 CoefB <- CoefBQ
 LenA = 4
 LenB = 3
 Dens = {1, 6}
 Rescale = FALSE
INVARIANTS Identity
PROPERTIES Ends
CHECK_DEADLOCK FALSE
