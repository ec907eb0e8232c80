SPECIFICATION Spec
VIEW View
INVARIANTS FinalMeansSigned OnlyDummiesSignThemselves NothingSignedBeforePrepare
PROPERTIES MonotoneG
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Layouts <- LQuick
 LateLayouts <- LLate
 Keys = {"A", "B", "X"}
 Hashes = {"h1", "h2"}
 MaxList = 1
