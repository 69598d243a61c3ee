SPECIFICATION Spec
CONSTANTS Guard = 2
 Quotient = "fixed"
 ExpK = 8
 ExpLo <- ExpLoF
 ExpHi = 192
 ExpStep = 1
 Widths = {0}
 LogK = 4
 LogHi = 0
 AgmHi = 0
INVARIANTS ResultSound
PROPERTIES AgmNarrows
CHECK_DEADLOCK FALSE
