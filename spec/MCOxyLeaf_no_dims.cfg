SPECIFICATION Spec
CONSTANTS KEEP = {"sign", "code", "offsets"}  LENS = {1, 2, 3, 10, 17, 257, 4000}
INVARIANTS Understood BytesFollow OnlyThat
CHECK_DEADLOCK FALSE
