SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Alphabet = {0, 24, 32, 64, 65, 95, 96, 97, 127, 128, 129, 130, 159, 160, 161, 191, 192, 244, 248, 255, 28}
INVARIANTS Agree Positive1 Refill Exact PartsAgree
CHECK_DEADLOCK FALSE
