SPECIFICATION Spec
INVARIANTS Conserved SpentOnce ByOwner AllSpends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Parties = {"A", "B", "C"}
