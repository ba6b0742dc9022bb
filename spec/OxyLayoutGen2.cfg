SPECIFICATION LSpec
CONSTANTS MaxEntries = 3 MaxBaskets = 3 NParts = 2 Gen = TRUE

CHECK_DEADLOCK FALSE
