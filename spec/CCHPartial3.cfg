SPECIFICATION Spec
CONSTANTS N = 3
Weights = {0, 2, 2147483647}
Changes = 2
INVARIANTS QueryExact PartialIsFull
CHECK_DEADLOCK FALSE
