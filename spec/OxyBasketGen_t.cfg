SPECIFICATION BSpec
CONSTANTS MaxEntries = 4 MaxLen = 2 MaxBaskets = 3 Counting = FALSE Gen = TRUE
CHECK_DEADLOCK FALSE
