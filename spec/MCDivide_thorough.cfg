SPECIFICATION Spec
CONSTANTS CoefA <- CoefAT
 CoefB <- CoefBT
 LenA = 5
 LenB = 3
 Dens = {1}
 Rescale = TRUE
INVARIANTS LoopInv Identity Unique Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
