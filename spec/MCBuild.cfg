CONSTANTS
  Domain = "core"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Shape Bound Dense Distinct Equivalent Own Trimmed
PROPERTIES Grows Complete
