INIT Init
NEXT Next
VIEW Progress
CHECK_DEADLOCK FALSE
