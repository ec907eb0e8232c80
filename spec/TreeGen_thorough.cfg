SPECIFICATION Spec
VIEW View
INVARIANTS PathsLead OneSame
PROPERTIES Grows
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLeaves = 7
 Labels = {"l1", "l2"}
 Bases = {0, 1, 17}
