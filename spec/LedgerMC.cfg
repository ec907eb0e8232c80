SPECIFICATION Spec
VIEW View
INVARIANTS Conserved SpentOnce ByOwner AllSpends
PROPERTY Unmoved
CHECK_DEADLOCK FALSE
CONSTANTS
 Parties = {"A", "B"}
 MaxMade = 3
 MaxSteps = 6
 Values = {0, 2}
 Simulated = FALSE
