INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Replaced NoCalls Readable OneLiteral Contained NoComment
