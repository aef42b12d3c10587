SPECIFICATION Spec
CONSTANTS N = 4 K = 3 Arity = 2
INVARIANT Refines
CHECK_DEADLOCK FALSE
