SPECIFICATION Spec
CONSTANTS WRONG = ""  LEN = 4
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
