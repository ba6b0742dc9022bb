SPECIFICATION PSpec
CONSTANTS MaxBlocks = 3 Kinds = {"ZL","XZ","L4"} Damages = {"tag","flip","short","cut","more","size"} FirstOnly = FALSE Gen = FALSE
INVARIANTS AsPlain DamageNoticed
CHECK_DEADLOCK FALSE
