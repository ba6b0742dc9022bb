SPECIFICATION RSpec
CONSTANTS
  MaxRows = 3
  OuterFirst = FALSE
  Gen = FALSE
INVARIANT RowsExact
