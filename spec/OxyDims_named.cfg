CONSTANTS
  MODE = "named"
  SIZES = {0, 1, 2, 3, 10}
  MAXD = 3
  COUNTS = {0, 1, 2, 5}
SPECIFICATION Spec
INVARIANT NumberIsEntry
CHECK_DEADLOCK FALSE
