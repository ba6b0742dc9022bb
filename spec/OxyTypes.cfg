CONSTANTS
  MODE = "words"
  DEPTH = 1
  SPELL = {"all"}
  CONTAINERS = {"vector", "set", "map", "list", "pair", "unordered_set"}
  STYLES = {1, 3}
SPECIFICATION Spec
INVARIANTS FindsType
CHECK_DEADLOCK FALSE
