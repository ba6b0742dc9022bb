CONSTANTS
  MODE = "words"
  DEPTH = 2
  SPELL = {"unsigned int", "string"}
  CONTAINERS = {"vector", "set", "map"}
  STYLES = {1, 2}
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
