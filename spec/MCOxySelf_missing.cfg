SPECIFICATION Spec
CONSTANTS WRONG = "missing"  LEN = 3
INVARIANTS Right
CHECK_DEADLOCK FALSE
