INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
INVARIANTS Routed
CONSTANTS
 N = 3
 MaxOps = 2
