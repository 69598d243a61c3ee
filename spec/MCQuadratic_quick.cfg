SPECIFICATION Spec
CONSTANTS Coefs <- CoefsQ
 Signs = TRUE
INVARIANTS Order Sound Arith Turn Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
