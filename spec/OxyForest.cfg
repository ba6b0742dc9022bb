CONSTANTS MaxNodes = 4 Names = {"a","b"} Absent = "c" Breadth = FALSE Gen = FALSE
SPECIFICATION FSpec
INVARIANTS EachOnce ParentsFirst SiblingsInOrder Together OneOrder FirstFound
