SPECIFICATION Spec
VIEW View
INVARIANTS FinalMeansSigned OnlyDummiesSignThemselves NothingSignedBeforePrepare
PROPERTIES MonotoneG
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Layouts <- LThorough
 LateLayouts <- LLateT
 Keys = {"A", "B", "C", "X"}
 Hashes = {"h1", "h2"}
 MaxList = 2
