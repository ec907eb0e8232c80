SPECIFICATION Spec
VIEW View
INVARIANTS TxidBase TxidAbsent AuthBase AuthAbsent
PROPERTIES TxidStep AuthStep Together
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Ns = {1, 2}
 MaxActs = 3
 MaxOps = 2
 Starts = {"0", "z", "f"}
