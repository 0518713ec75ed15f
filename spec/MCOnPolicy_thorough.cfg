INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Lambda0 Lambda1 NoLeak Centred Clip First
CONSTANTS
 Len_ = 3
 Rs = {0, 2}
 Vs = {0, 1, 3}
 As = {1, 2}
