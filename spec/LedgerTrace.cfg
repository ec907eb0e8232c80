SPECIFICATION Spec
INVARIANTS Conserved SpentOnce ByOwner AllSpends
CHECK_DEADLOCK TRUE
CONSTANT Parties = {"A", "B", "C"}
