SPECIFICATION Spec
INVARIANTS IsTree WritesItems Sessions
PROPERTY Adds
CHECK_DEADLOCK FALSE
