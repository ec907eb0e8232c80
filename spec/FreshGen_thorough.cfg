SPECIFICATION Spec
VIEW View
INVARIANTS EmitInit AllNew SameShape
CHECK_DEADLOCK FALSE
CONSTANTS
 Builds = 2
 Times = 34
 Large = TRUE
