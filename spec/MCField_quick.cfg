SPECIFICATION Spec
CONSTANTS Depth = 2
 AgreeDepth = 1
 Ops = {"add", "sub", "mul", "div", "neg", "recip"}
INVARIANTS FieldLaws Represented Emit
CHECK_DEADLOCK FALSE
