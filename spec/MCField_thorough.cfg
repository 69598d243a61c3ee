SPECIFICATION Spec
CONSTANTS Depth = 3
 AgreeDepth = 2
 Ops = {"add", "sub", "mul", "div", "neg", "recip"}
INVARIANTS FieldLaws Represented Emit
CHECK_DEADLOCK FALSE
