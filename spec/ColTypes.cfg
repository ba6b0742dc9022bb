SPECIFICATION Spec
INVARIANTS OneTypeEach NamesDiffer
CHECK_DEADLOCK FALSE
