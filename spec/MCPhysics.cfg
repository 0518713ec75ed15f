INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Accepted ObservesTheSimulator TimeAdvances Layout
CONSTANTS
 Depth = 4
 K = 2
 M = 2
 Comp = 1
 Rem = 1
