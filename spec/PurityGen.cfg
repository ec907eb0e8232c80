SPECIFICATION Spec
VIEW View
INVARIANTS Functional Answerable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Length = 2
