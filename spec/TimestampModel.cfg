SPECIFICATION Spec
CONSTANTS Ids = {a, b, c}
K = 6
ClearOnWrap = TRUE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
