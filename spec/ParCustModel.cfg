SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
Atomic = TRUE
Barrier = TRUE
Weights = {1, 4}
INVARIANTS Final
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
