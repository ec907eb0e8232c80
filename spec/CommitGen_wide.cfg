SPECIFICATION Spec
VIEW View
INVARIANTS TxidBase TxidAbsent AuthBase AuthAbsent
PROPERTIES TxidStep AuthStep Together
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Ns = {7, 20}
 MaxActs = 21
 MaxOps = 1
 Starts = {"0", "z"}
