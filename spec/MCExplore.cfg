INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Good Sched Count
CONSTANTS
 Depth = 4
 Vals = {0, 1, 4}
