INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS FlagsAreBits OutEnds GoalPays OwnGoal BounceEndsRepel HitOnlyOut NoReward ApproachOnce
PROPERTIES FlagsStay
CONSTANTS
 Task = "prepare"
 Sub = "side"
 Depth = 4
