SPECIFICATION Spec
CONSTANTS N = 3
Weights = {0, 1, 3, 2147483647}
Changes = 0
INVARIANTS QueryExact PartialIsFull
CHECK_DEADLOCK FALSE
