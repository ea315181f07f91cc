INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Incremental Numbered OneStyle Positions Conserved Merged Inert HolesAgree Additive Literals
