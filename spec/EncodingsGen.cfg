SPECIFICATION Spec
INVARIANTS Sound Canonical
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
