INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Good Sched Count
CONSTANTS
 Depth = 6
 Vals = {0, 1, 2, 4}
