SPECIFICATION Spec
VIEW View
INVARIANTS Canonical Separate RecognizedBack
PROPERTIES Downward
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 5
 Xs = {"sk1"}
 Js = {"j1"}
 Ds = {"d1"}
 Queries = FALSE
 Resers = TRUE
