INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Laws
CONSTANTS
  Depth = 4
  MaxO = 4
  Emit = TRUE
