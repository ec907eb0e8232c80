SPECIFICATION Spec
VIEW View
INVARIANTS ProofMatters
PROPERTIES Fragile
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Bases = {"pair", "one", "identity", "bundle"}
 Bases2 = {"pair", "one", "identity", "bundle"}
 Depth = 2
