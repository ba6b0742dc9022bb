CONSTANTS MaxItems = 2 MaxPairs = 2 Texts = {"", "ab"} Keys = {"k", "l"} Org = 7 Choose = FALSE BadOrigin = FALSE Gen = TRUE
SPECIFICATION ISpec
