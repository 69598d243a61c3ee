SPECIFICATION SpecM
CONSTANTS
  Threads = {1, 2, 3}
  Choices <- ChoicesDef
  PerThread = 2
  Variant = "right"
INVARIANTS PrecisionOk EntriesOk NoDeadlock 
PROPERTIES Growing Refines
CHECK_DEADLOCK FALSE
