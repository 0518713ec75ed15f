INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Central Peak Scale Drop KlOK
CONSTANTS
 Ls = {1, 2, 4}
 Xs = {0, 1, 3, 6}
