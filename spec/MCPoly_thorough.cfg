SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Coefs <- CoefsT
 Dens = {1, 3}
 Rings <- RingsT
INVARIANTS Canonical RingLaws DivisionLaws GcdLaws ResLaws CountLaws Emit
CHECK_DEADLOCK FALSE
