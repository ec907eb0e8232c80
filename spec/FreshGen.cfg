SPECIFICATION Spec
VIEW View
INVARIANTS EmitInit AllNew SameShape
CHECK_DEADLOCK FALSE
CONSTANTS
 Builds = 2
 Times = 30
 Large = FALSE
