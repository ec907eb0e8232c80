SPECIFICATION Spec
INVARIANTS Conserved SpentOnce ByOwner AllSpends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Parties = {"A", "B", "C"}
 MaxMade = 5
 MaxSteps = 20
 Values = {0, 1, 5, 7}
 Simulated = TRUE
