SPECIFICATION Spec
CONSTANTS MaxGrow = 4
 Drop = "any"
 Starts <- StartsT
 Quots <- QuotsT
INVARIANTS GcdExact ResExact IsSubresultant Drops SameGcd GcdRight ResInvariant ResRight Emit
CHECK_DEADLOCK FALSE
