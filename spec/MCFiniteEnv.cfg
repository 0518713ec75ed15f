INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SumGrid Local SumTaxi Kept Undo
CONSTANTS
 Hs = {2}
 Ws = {2}
 Probs = {9}
 Chars = {"#", ".", "G", "F"}
