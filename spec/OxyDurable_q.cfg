SPECIFICATION DSpec
CONSTANTS NTrees = 2 NBk = 1 Flush = TRUE DirLast = TRUE MaxBuf = 2 MaxFaults = 1
INVARIANTS CrashSafe CutSafe CloseMeansComplete
CHECK_DEADLOCK FALSE
