INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
INVARIANTS RoundTrip Consistent Selects Learns Ordered
CONSTANTS
 Ws = {0, 500000, 1000000}
 Xs = {0, 250000, 750000}
 Kinds = {"generic", "q", "action", "cmac"}
 Depth = 3
