CONSTANTS B = 2 L = 13 Blocks = 3 Free = 1 Silent = FALSE
SPECIFICATION Spec
INVARIANT Content

CHECK_DEADLOCK FALSE
