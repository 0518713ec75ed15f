INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS MeanOK DevOK WinOK Unit
CONSTANTS
 Vals <- ValsD
 MaxN = 5
 Ws = {1, 3}
