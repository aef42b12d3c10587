SPECIFICATION Spec
CONSTANTS N = 3
Weights = {0, 1, 3, 2147483647}
Changes = 0
INVARIANTS PerfectIsDistance PerfectExact
CHECK_DEADLOCK FALSE
