SPECIFICATION Spec
CONSTANTS
  NW = 3
  NT = 2
  NR = 2
  SHARE = "own"
  GEN = TRUE
CHECK_DEADLOCK FALSE
