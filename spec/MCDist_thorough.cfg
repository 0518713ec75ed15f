INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Central Peak Scale Drop KlOK
CONSTANTS
 Ls = {1, 2, 3, 4, 6}
 Xs = {0, 1, 2, 3, 4, 6, 8, 9}
