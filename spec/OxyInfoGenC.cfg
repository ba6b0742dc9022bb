CONSTANTS MaxItems = 2 MaxPairs = 1 Texts = {"", "ab"} Keys = {"k", "l"} Org = 7 Choose = TRUE BadOrigin = FALSE Gen = TRUE
SPECIFICATION ISpec
