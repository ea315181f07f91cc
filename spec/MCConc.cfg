CONSTANTS
  Grain = "step"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Alone Commute Progress
