SPECIFICATION Spec
CONSTANTS Coefs <- CoefsQ
 Signs = FALSE
INVARIANTS Order
CHECK_DEADLOCK FALSE
