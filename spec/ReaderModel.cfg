CONSTANTS B = 2 L = 13 Blocks = 3 Free = 2 Silent = FALSE
SPECIFICATION Spec
INVARIANTS Content Bounds Null Ahead
PROPERTIES Answered Ends
CHECK_DEADLOCK FALSE
