CONSTANTS MaxWays = 2 MaxNode = 3 MaxLen = 3 MarkEnds = TRUE
SPECIFICATION Spec
INVARIANTS Classified Subset
CHECK_DEADLOCK FALSE
