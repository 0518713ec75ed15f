INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Accepted LivesRight RestartOnlyWhenOver HistoryIsRecent
CONSTANTS
 Depth = 7
 H = 2
 MaxLives = 2
 Ends = 1
