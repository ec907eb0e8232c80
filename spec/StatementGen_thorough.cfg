SPECIFICATION Spec
INVARIANTS Sound Complete Binding
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Tier = "thorough"
