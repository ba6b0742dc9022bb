SPECIFICATION RTraceSpec
CONSTANTS
  Pres = {}
  Rens = {}
  Lpres = {}
  Abss = {}
INVARIANT TraceInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
