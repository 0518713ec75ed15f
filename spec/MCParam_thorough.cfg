INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS InBounds
CONSTANTS
 Depth = 6
