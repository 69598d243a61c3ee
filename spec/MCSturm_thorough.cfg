SPECIFICATION Spec
CONSTANTS Roots <- RootsT
 MaxMult = 3
 Others <- OthersT
 Lead <- LeadT
 MaxDeg = 5
 Care = TRUE
INVARIANTS Counts HalfOpen EndsInGcd NoCommonZero Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
