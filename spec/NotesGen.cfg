SPECIFICATION Spec
VIEW View
INVARIANTS Injective SameNk OtherNk OneNullifier SpentSeen
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
