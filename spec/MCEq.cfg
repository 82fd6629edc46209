SPECIFICATION Spec
INVARIANTS Faithful Sessions
CHECK_DEADLOCK FALSE
