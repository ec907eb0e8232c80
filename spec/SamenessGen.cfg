SPECIFICATION Spec
INVARIANTS Equivalence
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
