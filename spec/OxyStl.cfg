SPECIFICATION Spec
CONSTANTS Naive = FALSE Deep = FALSE Show = TRUE
INVARIANTS ReadBack AllBytes Case
CHECK_DEADLOCK FALSE
