CONSTANTS
  MODE = "words"
  DEPTH = 2
  SPELL = {"unsigned long int", "char", "Int_t", "TString", "Printout"}
  CONTAINERS = {"vector", "set", "map"}
  STYLES = {1, 3}
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
