INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Sound
CONSTANTS
 MaxCap = 6
 MaxLen = 12
 MaxTrunc = 5
