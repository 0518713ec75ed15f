INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Central Symmetric Peak Stationary Sign
CONSTANTS
 Ws = {0, 1}
 As = {0, 1, 2, 5}
 Xs = {1, 2}
