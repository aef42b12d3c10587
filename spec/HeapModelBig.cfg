SPECIFICATION Spec
CONSTANTS N = 6 K = 3 Arity = 4
INVARIANT Refines
CHECK_DEADLOCK FALSE
