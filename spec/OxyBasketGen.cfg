SPECIFICATION BSpec
CONSTANTS MaxEntries = 3 MaxLen = 2 MaxBaskets = 2 Counting = FALSE Gen = TRUE
CHECK_DEADLOCK FALSE
