SPECIFICATION Spec
CONSTANTS
  MaxX = 3
  MaxY = 3
INVARIANTS Composes Once Ordered Complete FillsView Emit
CHECK_DEADLOCK FALSE
