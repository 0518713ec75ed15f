INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OwnEpisode Longest EndsAtRow Starts Replays StatesChained EpisodesIndependent AbsorbingHasNoFuture
CONSTANTS
 Lw = 3
 N = 7
 G = 1
 Lam = 1
