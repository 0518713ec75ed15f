INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Copy Copies MemOK
CONSTANTS
 Depth = 5
 Algs = {"dqn", "double", "maxmin", "averaged"}
 Freqs = {1, 2, 3}
