SPECIFICATION Spec
CONSTANTS
  N = 3
  Dim = 3
  Entries <- Entries3
  Delta <- DeltaDef
INVARIANTS SameL Prefix Done Emit
PROPERTY Progress
CHECK_DEADLOCK FALSE
