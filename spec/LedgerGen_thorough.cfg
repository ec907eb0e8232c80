SPECIFICATION Spec
INVARIANTS Conserved SpentOnce ByOwner AllSpends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Parties = {"A", "B", "C"}
 MaxMade = 8
 MaxSteps = 34
 Values = {0, 1, 5, 7}
 Simulated = TRUE
