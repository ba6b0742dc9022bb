SPECIFICATION CSpec
CONSTANTS
  Buffers <- Few
  Ops <- MCOps
  Offsets = {0,70}
  MaxOps = 2
  Gen = FALSE
INVARIANT Inside
INVARIANT Exactly
