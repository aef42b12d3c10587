SPECIFICATION Spec
CONSTANTS N = 4
Weights = {1, 2147483647}
Changes = 0
INVARIANTS QueryExact PartialIsFull PerfectIsDistance PerfectExact
CHECK_DEADLOCK FALSE
