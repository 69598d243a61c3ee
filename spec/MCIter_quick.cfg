SPECIFICATION Spec
CONSTANTS Guard = 6
 Quotient = "directed"
 ExpK = 6
 ExpLo <- ExpLoQ
 ExpHi = 192
 ExpStep = 3
 Widths = {0, 1, 9}
 LogK = 4
 LogHi = 70
 AgmHi = 9
INVARIANTS ReductionSound TermSound ScaleSound PartialSound AgmSound ResultSound PointTight Emit
PROPERTIES AgmNarrows Ends
CHECK_DEADLOCK FALSE
