CONSTANTS
  MODE = "words"
  DEPTH = 1
  SPELL = {"all"}
  CONTAINERS = {"vector", "set", "list", "unordered_set"}
  STYLES = {1, 3}
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
