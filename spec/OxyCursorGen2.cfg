SPECIFICATION CSpec
CONSTANTS
  Buffers <- MCBuffers
  Ops <- MCOps
  Offsets = {0,70}
  MaxOps = 2
  Gen = TRUE
INVARIANT Inside
INVARIANT Exactly
