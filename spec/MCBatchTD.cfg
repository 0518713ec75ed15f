INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Optimal Order Twice Boosted Double Bounded
CONSTANTS
 Rs = {0, 3}
 Gs = {2}
 Ns = {1, 3}
