INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Sound
CONSTANTS
 MaxCap = 5
 MaxLen = 8
 MaxTrunc = 4
