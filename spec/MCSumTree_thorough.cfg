INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SumsOk Proportional
CONSTANTS
 MaxCap = 6
 Prios = {1, 2, 3}
 MaxOps = 8
