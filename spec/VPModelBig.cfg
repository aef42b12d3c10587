CONSTANTS K = 8 N = 6 Leaf = 1 Slop = 0
SPECIFICATION Spec
INVARIANTS Nearest AllFound

CHECK_DEADLOCK FALSE
