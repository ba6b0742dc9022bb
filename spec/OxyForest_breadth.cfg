CONSTANTS MaxNodes = 4 Names = {"a","b"} Absent = "c" Breadth = TRUE Gen = FALSE
SPECIFICATION FSpec
INVARIANTS EachOnce ParentsFirst SiblingsInOrder Together
