INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Trig Work Mirror PendEnergy Ship CannotClimb
CONSTANTS
 Angles <- AnglesD
 Vels <- VelsD
 Us <- UsD
 Poss <- PossD
