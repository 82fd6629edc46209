SPECIFICATION Spec
INVARIANTS Tiles AtEnd Cause Sessions
CHECK_DEADLOCK FALSE
