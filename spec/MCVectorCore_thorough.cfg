INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS NoBad Backlog
CONSTANTS
 MaxN = 3
 MaxBudget = 8
 MaxFit = 5
 Hor = 3
