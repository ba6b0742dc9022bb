CONSTANTS
  MODE = "all"
  SIZES = {0, 1, 2, 3}
  MAXD = 3
  COUNTS = {0, 1, 2, 5}
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
