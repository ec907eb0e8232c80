SPECIFICATION Spec
INVARIANTS TypeOK OnlyAdmitted ExactContents Conserved
CHECK_DEADLOCK TRUE
