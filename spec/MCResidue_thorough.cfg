SPECIFICATION Spec
CONSTANTS Moduli = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
 Depth = 2
INVARIANTS Canonical RingLaws UnitLaws PowLaws Emit
CHECK_DEADLOCK FALSE
