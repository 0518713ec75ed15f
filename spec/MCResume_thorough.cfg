INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT NoAlarm
CONSTANTS
  Depth = 6
  MaxO = 3
  Forget = {}
