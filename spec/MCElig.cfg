INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Bounds
CONSTANTS
 Depth = 3
 Lams = {0, 8, 16}
