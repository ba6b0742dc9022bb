SPECIFICATION CSpec
CONSTANTS
  Buffers <- Few
  Ops <- MCOps
  Offsets = {0,70}
  MaxOps = 3
  Gen = FALSE
INVARIANT Inside
INVARIANT Exactly
