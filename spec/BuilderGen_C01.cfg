SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK OnlyAdmitted ExactContents Conserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 2
 Types <- TypesAll
 SCat <- AdmSpends
 OCat <- AdmOuts
 VTypes = {"i64"}
 Arrange = FALSE
 DoBuild = FALSE
