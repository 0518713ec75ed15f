INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Refines Bounded NoCross
CONSTANTS
  MaxT = 6
  MaxN = 4
  MaxCap = 5
  MaxAdds = 2
