SPECIFICATION FSpec
CONSTANTS MaxTrees = 2 MaxBk = 3 MaxLen = 3
INVARIANT FInv
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
