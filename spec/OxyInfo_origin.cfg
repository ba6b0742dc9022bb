CONSTANTS MaxItems = 2 MaxPairs = 2 Texts = {"", "ab"} Keys = {"k", "l"} Org = 7 Choose = FALSE BadOrigin = TRUE Gen = FALSE
SPECIFICATION ISpec
INVARIANTS AsStored TagsKnown
