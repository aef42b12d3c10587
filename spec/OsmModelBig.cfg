CONSTANTS MaxWays = 2 MaxNode = 4 MaxLen = 4 MarkEnds = TRUE
SPECIFICATION Spec
INVARIANTS Classified Subset
CHECK_DEADLOCK FALSE
