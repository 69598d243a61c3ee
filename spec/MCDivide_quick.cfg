SPECIFICATION Spec
CONSTANTS CoefA <- CoefAQ
 CoefB <- CoefBQ
 LenA = 4
 LenB = 3
 Dens = {1, 6}
 Rescale = TRUE
INVARIANTS LoopInv Identity Unique Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
