CONSTANTS K = 6 N = 5 Leaf = 1 Slop = 0
SPECIFICATION Spec
INVARIANTS Nearest AllFound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
