INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Distinct AppendKeeps
CONSTANTS
 Depth = 6
 MaxL = 3
 Seeds <- SeedsD
