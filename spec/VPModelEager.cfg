CONSTANTS K = 6 N = 5 Leaf = 1 Slop = 1
SPECIFICATION Spec
INVARIANTS Nearest AllFound

CHECK_DEADLOCK FALSE
