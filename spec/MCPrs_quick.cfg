SPECIFICATION Spec
CONSTANTS MaxGrow = 3
 Drop = "any"
 Starts <- StartsQ
 Quots <- QuotsQ
INVARIANTS GcdExact ResExact IsSubresultant Drops SameGcd GcdRight ResInvariant ResRight Emit
CHECK_DEADLOCK FALSE
