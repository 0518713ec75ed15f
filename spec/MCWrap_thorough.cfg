INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Accepted LivesRight RestartOnlyWhenOver HistoryIsRecent
CONSTANTS
 Depth = 9
 H = 3
 MaxLives = 2
 Ends = 1
