SPECIFICATION Spec
INVARIANTS TypeOK OnlyAdmitted ExactContents Conserved NeverStuck Valid Stops
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Full = TRUE
