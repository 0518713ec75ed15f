INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Bounds
CONSTANTS
 Depth = 4
 Lams = {0, 8, 16}
