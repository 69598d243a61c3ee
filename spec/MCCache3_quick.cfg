SPECIFICATION SpecM
CONSTANTS
  Threads = {1, 2, 3}
  Choices <- ChoicesDef
  PerThread = 1
  Variant = "right"
INVARIANTS PrecisionOk EntriesOk NoDeadlock Emit
PROPERTIES Growing Refines
CHECK_DEADLOCK FALSE
