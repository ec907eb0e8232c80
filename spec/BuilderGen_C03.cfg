SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK OnlyAdmitted ExactContents Conserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 3
 Types <- TypesOpen
 SCat <- ValSpends
 OCat <- ValOuts
 VTypes = {"i64", "amt", "nonneg"}
 Arrange = FALSE
 DoBuild = TRUE
