SPECIFICATION Spec
INVARIANTS Back Mono Nearest Points Sessions
CHECK_DEADLOCK FALSE
