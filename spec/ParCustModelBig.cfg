SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
Atomic = TRUE
Barrier = TRUE
Weights = {1, 4}
INVARIANTS Final
CHECK_DEADLOCK FALSE
