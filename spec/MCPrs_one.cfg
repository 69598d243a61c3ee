SPECIFICATION Spec
CONSTANTS MaxGrow = 3
 Drop = "one"
 Starts <- StartsQ
 Quots <- QuotsN
INVARIANTS GcdExact ResExact IsSubresultant Drops SameGcd GcdRight ResInvariant ResRight
CHECK_DEADLOCK FALSE
