SPECIFICATION Spec
CONSTANTS Factors <- FactorsQ
 Contents <- ContentsQ
 MaxExp = 3
 MaxDeg = 9
 Skip = TRUE
INVARIANTS Rest Right Recomposes NotLonger
PROPERTIES Ends
CHECK_DEADLOCK FALSE
