SPECIFICATION Spec
CONSTANTS
  NW = 3
  NT = 2
  NR = 2
  SHARE = "buffer"
  GEN = FALSE
INVARIANT SameAsAlone
VIEW View
CHECK_DEADLOCK FALSE
