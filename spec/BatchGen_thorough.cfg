SPECIFICATION Spec
INVARIANTS Conj
PROPERTIES Monotone
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Bundles = {"a", "b", "c", "e"}
 Pairs = 3
 MaxMixed = 5
