SPECIFICATION SpecM
CONSTANTS
  Threads = {1, 2}
  Choices <- ChoicesDef
  PerThread = 2
  Variant = "stale"
INVARIANTS PrecisionOk EntriesOk NoDeadlock 
PROPERTY Growing
CHECK_DEADLOCK FALSE
