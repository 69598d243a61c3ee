SPECIFICATION Spec
CONSTANTS Primes = {3, 5, 11}
 Lift = "bound"
 Monic = TRUE
 Pool <- PoolQ
 MaxFactors = 3
 MaxDeg = 5
INVARIANTS Lifted Kept Sound Complete Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
