SPECIFICATION LSpec
CONSTANTS MaxEntries = 4 MaxBaskets = 3 NParts = 1 Gen = TRUE

CHECK_DEADLOCK FALSE
