SPECIFICATION Spec
CONSTANTS Guard = 3
 Quotient = "directed"
 ExpK = 8
 ExpLo <- ExpLoT
 ExpHi = 2560
 ExpStep = 2
 Widths = {0, 1, 2, 17, 300}
 LogK = 6
 LogHi = 900
 AgmHi = 20
INVARIANTS ReductionSound TermSound ScaleSound PartialSound AgmSound ResultSound PointTight Emit
PROPERTIES AgmNarrows Ends
CHECK_DEADLOCK FALSE
