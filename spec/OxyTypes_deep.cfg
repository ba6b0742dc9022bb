CONSTANTS
  MODE = "words"
  DEPTH = 2
  SPELL = {"unsigned long int", "short", "Offset"}
  CONTAINERS = {"vector", "set", "map"}
  STYLES = {1, 2}
SPECIFICATION Spec
INVARIANTS FindsType
CHECK_DEADLOCK FALSE
