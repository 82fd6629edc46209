SPECIFICATION Spec
INVARIANTS Asks NeverOver PrefixFree Sessions
PROPERTY Finishes
CHECK_DEADLOCK FALSE
