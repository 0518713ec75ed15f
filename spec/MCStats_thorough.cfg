INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS MeanOK DevOK WinOK Unit
CONSTANTS
 Vals <- ValsD
 MaxN = 8
 Ws = {1, 2, 3, 5}
