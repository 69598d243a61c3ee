SPECIFICATION Spec
CONSTANTS Primes = {3, 5, 11}
 Lift = "none"
 Monic = TRUE
 Pool <- PoolQ
 MaxFactors = 3
 MaxDeg = 5
INVARIANTS Complete

CHECK_DEADLOCK FALSE
