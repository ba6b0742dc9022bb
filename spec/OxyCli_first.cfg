CONSTANTS
  MAXN = 2
  MAXC = 2
  MAXK = 2
  STOP = "first"
SPECIFICATION Spec
INVARIANTS AllPrinted EveryKey
CHECK_DEADLOCK FALSE
