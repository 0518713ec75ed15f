INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Central Symmetric Peak Stationary Sign
CONSTANTS
 Ws = {0, 1, 2, 3}
 As = {0, 1, 2, 3, 5, 8, 13}
 Xs = {0, 1, 2, 3}
