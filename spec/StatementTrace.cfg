SPECIFICATION Spec
CHECK_DEADLOCK TRUE
