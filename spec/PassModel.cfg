CONSTANTS MaxLen = 4 Cap = 2 Signal = TRUE
SPECIFICATION Spec
INVARIANTS Complete InOrder
PROPERTY Finishes
CHECK_DEADLOCK FALSE
