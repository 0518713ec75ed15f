INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Between Copy Delay
CONSTANTS
 Depth = 5
 Taus = {1, 4, 8}
 Delays = {1, 2, 3}
