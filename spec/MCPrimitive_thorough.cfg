INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS PhaseInRange PhaseCounts Settles Bounded
CONSTANTS
 D = 8
 Per = 1
 MaxT = 200
 Goal = 1
