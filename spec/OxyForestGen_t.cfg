CONSTANTS MaxNodes = 5 Names = {"a","b","a.b"} Absent = "c" Breadth = FALSE Gen = TRUE
SPECIFICATION FSpec
