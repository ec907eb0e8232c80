SPECIFICATION Spec
VIEW View
INVARIANTS Exact Closed Distinct
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
