INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS NoBad Backlog
CONSTANTS
 MaxN = 3
 MaxBudget = 5
 MaxFit = 4
 Hor = 2
