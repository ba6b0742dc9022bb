SPECIFICATION CSpec
CONSTANTS
  Buffers <- Few
  Ops <- MCOps
  Offsets = {70}
  MaxOps = 2
  Gen = TRUE
INVARIANT Inside
INVARIANT Exactly
