SPECIFICATION Spec
CONSTANTS N = 4
Weights = {1, 2147483647}
Changes = 2
INVARIANTS QueryExact PartialIsFull
CHECK_DEADLOCK FALSE
