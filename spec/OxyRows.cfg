SPECIFICATION RSpec
CONSTANTS
  MaxRows = 3
  OuterFirst = TRUE
  Gen = FALSE
INVARIANT RowsExact
INVARIANT InStep
PROPERTY Over1
