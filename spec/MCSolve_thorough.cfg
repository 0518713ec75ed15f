INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Fix Dominates Attained CarOK
CONSTANTS
 Rs <- RsD
 Gs = {1, 4, 8}
 Tops = {2, 3, 5}
