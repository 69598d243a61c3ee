SPECIFICATION Spec
CONSTANTS
  MaxX = 2
  MaxY = 2
INVARIANTS Composes Once Ordered Complete FillsView Emit
CHECK_DEADLOCK FALSE
