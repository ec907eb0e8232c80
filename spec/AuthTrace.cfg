SPECIFICATION Spec
INVARIANTS FinalMeansSigned
CHECK_DEADLOCK TRUE
