INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS
  MaxN = 5
  MaxCalls = 1
  Hs = {0, 1, 2, 3}
  Ks = {0, 1}
  Ps <- PsDef
  Emit = TRUE
