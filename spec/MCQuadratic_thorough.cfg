SPECIFICATION Spec
CONSTANTS Coefs <- CoefsT
 Signs = TRUE
INVARIANTS Order Sound Arith Turn Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
