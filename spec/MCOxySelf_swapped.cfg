SPECIFICATION Spec
CONSTANTS WRONG = "swapped"  LEN = 3
INVARIANTS Right
CHECK_DEADLOCK FALSE
