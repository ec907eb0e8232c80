SPECIFICATION Spec
VIEW View
INVARIANTS Exact StrayUnread Recipient Sender Tampered Consistent Noticed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANT Adversary = TRUE
