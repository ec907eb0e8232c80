SPECIFICATION Spec
VIEW View
INVARIANTS InRange Opposite Inverse
PROPERTIES Exact
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 2
 ListLen = 3
