SPECIFICATION CSpec
CONSTANTS
  Buffers <- MCBuffers
  Ops <- MCOps
  Offsets = {0,1,70,5000}
  MaxOps = 14
  Gen = TRUE
INVARIANT Inside
INVARIANT Exactly
