SPECIFICATION DSpec
CONSTANTS NTrees = 1 NBk = 1 Flush = FALSE DirLast = TRUE MaxBuf = 2 MaxFaults = 0
INVARIANTS CrashSafe CutSafe CloseMeansComplete
CHECK_DEADLOCK FALSE
