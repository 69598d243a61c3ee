SPECIFICATION Spec
CONSTANTS Primes = {3, 5, 11}
 Lift = "bound"
 Monic = FALSE
 Pool <- PoolN
 MaxFactors = 2
 MaxDeg = 5
INVARIANTS Complete

CHECK_DEADLOCK FALSE
