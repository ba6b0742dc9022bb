SPECIFICATION Spec
CONSTANTS WRONG = "version"  LEN = 2
INVARIANTS NeverStuck
CHECK_DEADLOCK FALSE
