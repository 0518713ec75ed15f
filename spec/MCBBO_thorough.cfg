INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Unique Fresh FitPossible Weights
CONSTANTS
 NEnv = 2
 Rs = {0, 3}
 MaxDraw = 6
 Horizon = 2
