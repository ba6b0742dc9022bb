SPECIFICATION DSpec
CONSTANTS NTrees = 1 NBk = 1 Flush = TRUE DirLast = FALSE MaxBuf = 1 MaxFaults = 0
INVARIANTS CrashSafe CutSafe CloseMeansComplete
CHECK_DEADLOCK FALSE
