INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Covered Inside Monotone Apart Monos Unit
CONSTANTS
 Ns = {1, 2, 3}
 Nts = {1, 3, 4}
 W = 16
