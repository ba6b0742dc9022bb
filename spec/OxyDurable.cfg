SPECIFICATION DSpec
CONSTANTS NTrees = 3 NBk = 2 Flush = TRUE DirLast = TRUE MaxBuf = 3 MaxFaults = 2
INVARIANTS CrashSafe CutSafe CloseMeansComplete
CHECK_DEADLOCK FALSE
