SPECIFICATION SpecM
CONSTANTS
  Threads = {1, 2}
  Choices <- ChoicesDef
  PerThread = 2
  Variant = "right"
INVARIANTS PrecisionOk EntriesOk NoDeadlock Emit
PROPERTIES Growing Refines
CHECK_DEADLOCK FALSE
