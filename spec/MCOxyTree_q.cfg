SPECIFICATION Spec
CONSTANTS MaxVals = 1  MaxCols = 2  MaxCbs = 1  MaxKeys = 2
INVARIANTS Inv RoundTrip
PROPERTIES ClosedIsFixed OpenIsFixed
CHECK_DEADLOCK FALSE
