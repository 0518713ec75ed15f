INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Fix Dominates Attained CarOK
CONSTANTS
 Rs <- RsD
 Gs = {8}
 Tops = {4}
