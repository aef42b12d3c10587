SPECIFICATION Spec
CONSTANTS N = 3
Weights = {0, 1, 3, 2147483647}
INVARIANTS CoreKeepsDistances QueryExact
CHECK_DEADLOCK FALSE
