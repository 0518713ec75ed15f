INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS PhaseInRange PhaseCounts Settles Bounded
CONSTANTS
 D = 4
 Per = 0
 MaxT = 60
 Goal = 2
