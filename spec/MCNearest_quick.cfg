SPECIFICATION Spec
CONSTANTS W = 5
 Toward = "signs"
INVARIANTS Fits Identity Refused Nearest Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
