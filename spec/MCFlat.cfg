INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Flattened Total Conditions
PROPERTIES Extends
