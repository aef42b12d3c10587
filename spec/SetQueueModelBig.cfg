SPECIFICATION Spec
CONSTANT MaxN = 12
INVARIANT Refines
CHECK_DEADLOCK FALSE
