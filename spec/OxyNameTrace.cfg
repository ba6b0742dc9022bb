SPECIFICATION TSpec
CONSTANTS
  Texts = {}
  MaxSteps = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
