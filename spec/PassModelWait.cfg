CONSTANTS MaxLen = 2 Cap = 2 Signal = FALSE
SPECIFICATION Spec
INVARIANTS Complete InOrder
PROPERTY Finishes
CHECK_DEADLOCK FALSE
