INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Accepted ObservesTheSimulator TimeAdvances Layout
CONSTANTS
 Depth = 6
 K = 2
 M = 3
 Comp = 1
 Rem = 2
