SPECIFICATION Spec
CONSTANTS Moduli = {1, 2, 3, 4, 5, 6, 7}
 Depth = 2
INVARIANTS Canonical RingLaws UnitLaws PowLaws Emit
CHECK_DEADLOCK FALSE
