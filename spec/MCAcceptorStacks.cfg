SPECIFICATION Spec
INVARIANTS Acceptable Refuses Reachable Sessions
CHECK_DEADLOCK FALSE
VIEW JustStack
