SPECIFICATION Spec
CONSTANTS Naive = TRUE Deep = FALSE Show = FALSE
INVARIANTS ReadBack AllBytes Case
CHECK_DEADLOCK FALSE
