SPECIFICATION TSpec
CONSTANTS
  Buffers = {}
  Ops = {}
  Offsets = {}
  MaxOps = 0
  Gen = FALSE
INVARIANT TInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
