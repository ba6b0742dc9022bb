SPECIFICATION GSpec
INVARIANT Inv
CHECK_DEADLOCK FALSE
