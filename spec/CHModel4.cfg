SPECIFICATION Spec
CONSTANTS N = 4
Weights = {1, 2147483647}
INVARIANTS CoreKeepsDistances QueryExact
CHECK_DEADLOCK FALSE
