CONSTANTS MaxWays = 2 MaxNode = 3 MaxLen = 3 MarkEnds = FALSE
SPECIFICATION Spec
INVARIANTS Classified Subset
CHECK_DEADLOCK FALSE
