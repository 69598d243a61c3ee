SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Coefs <- CoefsQ
 Dens = {1, 3}
 Rings <- RingsQ
INVARIANTS Canonical RingLaws DivisionLaws GcdLaws ResLaws CountLaws Emit
CHECK_DEADLOCK FALSE
