SPECIFICATION FSpec
CONSTANTS MaxTrees = 3 MaxBk = 3 MaxLen = 3
INVARIANT FInv
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
