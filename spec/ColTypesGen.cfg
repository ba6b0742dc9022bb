SPECIFICATION WSpec
INVARIANTS Show
CHECK_DEADLOCK FALSE
