SPECIFICATION Spec
CONSTANTS Roots <- RootsQ
 MaxMult = 2
 Others <- OthersQ
 Lead <- LeadQ
 MaxDeg = 4
 Care = TRUE
INVARIANTS Counts HalfOpen EndsInGcd NoCommonZero Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
