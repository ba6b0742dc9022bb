SPECIFICATION Spec
CONSTANTS Naive = FALSE Deep = TRUE Show = TRUE
INVARIANTS ReadBack AllBytes Case
CHECK_DEADLOCK FALSE
