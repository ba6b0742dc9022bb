CONSTANTS
  MODE = "words"
  DEPTH = 4
  SPELL = {"long long", "unsigned char", "string", "TString", "Int_t", "Bitmap", "unsigned", "double", "longitude"}
  CONTAINERS = {"vector", "set", "map", "list", "pair", "unordered_set"}
  STYLES = {1, 2, 3}
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
