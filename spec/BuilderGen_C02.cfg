SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK OnlyAdmitted ExactContents Conserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 3
 Types <- TypesAll
 SCat <- CntSpends
 OCat <- CntOuts
 VTypes = {"i64"}
 Arrange = FALSE
 DoBuild = TRUE
