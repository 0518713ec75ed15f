INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Distinct AppendKeeps
CONSTANTS
 Depth = 8
 MaxL = 4
 Seeds <- SeedsD
