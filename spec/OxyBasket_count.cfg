SPECIFICATION BSpec
CONSTANTS MaxEntries = 3 MaxLen = 2 MaxBaskets = 1 Counting = TRUE Gen = FALSE
INVARIANTS RowsExact AllRows
CHECK_DEADLOCK FALSE
