SPECIFICATION Spec
INVARIANTS Show
CHECK_DEADLOCK FALSE
