INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Bounded Untouched FullRate
CONSTANTS
 Algs = {"q", "sarsa", "double", "maxmin", "speedy"}
 Gs = {0, 8}
 As = {8, 16}
 Depth = 2
