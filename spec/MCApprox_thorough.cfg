INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
INVARIANTS RoundTrip Consistent Selects Learns Ordered
CONSTANTS
 Ws = {0, 250000, 500000, 1000000, 1500000}
 Xs = {0, 250000, 750000, 1250000}
 Kinds = {"generic", "q", "action", "cmac"}
 Depth = 4
