SPECIFICATION Spec
CONSTANTS
  NW = 2
  NT = 1
  NR = 0
  SHARE = "own"
  GEN = TRUE
CHECK_DEADLOCK FALSE
