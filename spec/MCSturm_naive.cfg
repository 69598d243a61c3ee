SPECIFICATION Spec
CONSTANTS Roots <- RootsQ
 MaxMult = 2
 Others <- OthersQ
 Lead <- LeadQ
 MaxDeg = 4
 Care = FALSE
INVARIANTS Counts
PROPERTIES Ends
CHECK_DEADLOCK FALSE
