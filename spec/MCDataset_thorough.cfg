INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Laws
CONSTANTS
  Depth = 5
  MaxD = 4
  MaxLen = 4
  Emit = TRUE
