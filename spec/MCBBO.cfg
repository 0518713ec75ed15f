INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Unique Fresh FitPossible Weights
CONSTANTS
 NEnv = 2
 Rs = {0, 3}
 MaxDraw = 4
 Horizon = 2
