SPECIFICATION Spec
INVARIANTS OneNullifier SpentSeen
CHECK_DEADLOCK TRUE
