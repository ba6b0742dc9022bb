SPECIFICATION Spec
INVARIANTS OneSpelling
CHECK_DEADLOCK FALSE
