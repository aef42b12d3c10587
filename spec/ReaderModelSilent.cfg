CONSTANTS B = 2 L = 5 Blocks = 3 Free = 2 Silent = TRUE
SPECIFICATION Spec
INVARIANTS Content Bounds Null Ahead
PROPERTIES Answered Ends
CHECK_DEADLOCK FALSE
