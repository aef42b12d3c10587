SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS StackFits Correct
CHECK_DEADLOCK FALSE
