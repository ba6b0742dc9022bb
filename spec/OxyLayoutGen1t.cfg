SPECIFICATION LSpec
CONSTANTS MaxEntries = 5 MaxBaskets = 4 NParts = 1 Gen = TRUE

CHECK_DEADLOCK FALSE
