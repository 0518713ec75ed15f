INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Order Invariant Linear Constant OneStep FirstAdam
CONSTANTS
 Xs = {1, 2}
 As = {0, 2}
 Rs = {0, 3}
 Ls = {1, 2}
