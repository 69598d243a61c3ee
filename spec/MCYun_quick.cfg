SPECIFICATION Spec
CONSTANTS Factors <- FactorsQ
 Contents <- ContentsQ
 MaxExp = 3
 MaxDeg = 9
 Skip = FALSE
INVARIANTS Rest Right Recomposes NotLonger Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
