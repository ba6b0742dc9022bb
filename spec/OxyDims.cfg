CONSTANTS
  MODE = "all"
  SIZES = {0, 1, 2, 3, 10}
  MAXD = 3
  COUNTS = {0, 1, 2, 5}
SPECIFICATION Spec
INVARIANTS NumberIsEntry OpenIfVaries
CHECK_DEADLOCK FALSE
