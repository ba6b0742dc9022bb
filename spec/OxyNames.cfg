SPECIFICATION NSpec
CONSTANTS
  Pres = {"", "g_"}
  Rens = {"", "r"}
  Lpres = {"", "l_"}
  Abss = {"", "x"}
INVARIANT Say
INVARIANT Position
INVARIANT Absolute
INVARIANT Apart
