SPECIFICATION Spec
VIEW View
INVARIANTS OnlyTheBase OnlySigned ReadImplies
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Bases = {"two", "mint"}
 Depth = 2
 Plain2 = TRUE
 AllDepth = 3
 Many = {1, 2, 150}
