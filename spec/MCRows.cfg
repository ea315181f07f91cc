SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Released Errors Results Reads Agrees
PROPERTIES Ends
