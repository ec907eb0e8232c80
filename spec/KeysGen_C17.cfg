SPECIFICATION Spec
VIEW View
INVARIANTS Canonical Separate RecognizedBack
PROPERTIES Downward
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 4
 Xs = {"sk1", "sk2"}
 Js = {"j1", "j2"}
 Ds = {"d1", "d0"}
 Queries = TRUE
 Resers = FALSE
