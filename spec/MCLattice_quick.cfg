SPECIFICATION Spec
CONSTANTS
  N = 2
  Dim = 2
  Entries <- EntriesDef
  Delta <- DeltaDef
INVARIANTS SameL Prefix Done Emit
PROPERTY Progress
CHECK_DEADLOCK FALSE
