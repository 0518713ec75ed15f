INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Lambda0 Lambda1 NoLeak Centred Clip First
CONSTANTS
 Len_ = 2
 Rs = {1, 0, 2}
 Vs = {0, 1}
 As = {1, 2}
