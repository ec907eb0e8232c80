SPECIFICATION Spec
VIEW View
INVARIANTS Conserved SingleEdits
PROPERTIES Reorder
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Depth = 2
 Whose = {"A", "B"}
 Alphas = {"zero", "x", "-x", "y"}
 Msgs = {"h1", "h2", "bit", "long", "short", "none"}
 Copies = {1, 14, 70, 260}
 FlagBytes = {0, 1, 2, 3}
