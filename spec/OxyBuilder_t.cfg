SPECIFICATION BSpec
CONSTANTS
  Texts = {"n", "p_"}
  MaxSteps = 5
INVARIANT AbsAlone
INVARIANT Say
PROPERTY Inside
CHECK_DEADLOCK FALSE
