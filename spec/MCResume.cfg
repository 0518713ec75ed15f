INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT NoAlarm
CONSTANTS
  Depth = 5
  MaxO = 3
  Forget = {}
