SPECIFICATION LSpec
CONSTANTS MaxEntries = 3 MaxBaskets = 2 NParts = 2 Gen = FALSE
INVARIANTS InStep AllRead NotStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
