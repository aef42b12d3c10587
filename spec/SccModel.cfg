SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS StackFits Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
