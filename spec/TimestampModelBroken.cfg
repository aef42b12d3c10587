SPECIFICATION Spec
CONSTANTS Ids = {a, b, c}
K = 6
ClearOnWrap = FALSE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
