SPECIFICATION Spec
INVARIANTS Uniform Sessions
CHECK_DEADLOCK FALSE
