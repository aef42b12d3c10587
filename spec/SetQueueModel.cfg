SPECIFICATION Spec
CONSTANT MaxN = 8
INVARIANT Refines
CHECK_DEADLOCK FALSE
