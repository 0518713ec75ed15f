INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SumsOk Proportional
CONSTANTS
 MaxCap = 5
 Prios = {1, 2, 3}
 MaxOps = 6
