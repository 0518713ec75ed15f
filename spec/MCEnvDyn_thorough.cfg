INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Trig Work Mirror PendEnergy Ship CannotClimb
CONSTANTS
 Angles <- AnglesT
 Vels <- VelsT
 Us <- UsT
 Poss <- PossT
