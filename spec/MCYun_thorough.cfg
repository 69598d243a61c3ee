SPECIFICATION Spec
CONSTANTS Factors <- FactorsT
 Contents <- ContentsQ
 MaxExp = 5
 MaxDeg = 15
 Skip = FALSE
INVARIANTS Rest Right Recomposes NotLonger Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
