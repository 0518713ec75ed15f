INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Covered Inside Monotone Apart Monos Unit
CONSTANTS
 Ns = {1, 2, 3, 5, 8}
 Nts = {1, 2, 3, 4, 5, 7}
 W = 48
