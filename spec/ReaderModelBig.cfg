CONSTANTS B = 3 L = 19 Blocks = 5 Free = 2 Silent = FALSE
SPECIFICATION Spec
INVARIANTS Content Bounds Null Ahead
PROPERTIES Answered Ends
CHECK_DEADLOCK FALSE
