SPECIFICATION Spec
CONSTANTS WRONG = "wider"  LEN = 3
INVARIANTS Right
CHECK_DEADLOCK FALSE
