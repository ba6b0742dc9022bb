SPECIFICATION LSpec
CONSTANTS MaxEntries = 4 MaxBaskets = 3 NParts = 1 Gen = FALSE
INVARIANTS InStep AllRead NotStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
