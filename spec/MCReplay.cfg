INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Refines Bounded NoCross
CONSTANTS
  MaxT = 5
  MaxN = 3
  MaxCap = 4
  MaxAdds = 2
