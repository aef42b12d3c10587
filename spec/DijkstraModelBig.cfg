SPECIFICATION Spec
CONSTANTS N = 3
Weights = {0, 1, 3, 2147483647}
Periods = {0, 2}
INVARIANTS Exact Complete
PROPERTY Stable
CHECK_DEADLOCK FALSE
