SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
Atomic = TRUE
Barrier = FALSE
Weights = {1, 4}
INVARIANTS Final
CHECK_DEADLOCK FALSE
