INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SumGrid Local SumTaxi Kept Undo
CONSTANTS
 Hs = {1, 2}
 Ws = {2}
 Probs = {0, 1, 5, 8, 9, 13, 16}
 Chars = {"#", ".", "G", "F"}
