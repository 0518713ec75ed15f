INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Optimal Order Twice Boosted Double Bounded
CONSTANTS
 Rs = {0, 1, 3}
 Gs = {0, 2, 3, 4}
 Ns = {1, 2, 3, 4}
