SPECIFICATION RSpec
CONSTANTS
  MaxRows = 0
  OuterFirst = TRUE
  Gen = TRUE
