------------------------------- MODULE MCPrimitive -------------------------------
(* Design: the phase never decreases within an episode and stays within 0..1 unless the       *)
(* movement is periodic; the linear systems of a DMP without force settle at the goal.         *)
EXTENDS Primitive, TLC
CONSTANTS D, Per, MaxT, Goal
VARIABLES t, s, k
C == [mp |-> "dmp", n |-> 1, d |-> D, per |-> Per, w |-> <<<<0, 0>>>>, prec |-> <<>>, g |-> <<Goal>>, dti |-> 8, tau |-> 1, av |-> 16, bv |-> 4, az |-> 16, bz |-> 4]
Init == t = 0 /\ s = Start(C) /\ k = 0
Next == k < MaxT /\ k' = k + 1 /\ t' \in {NextT(C, t), 0} /\ s' = Euler(C, s)
PhaseInRange == t >= 0 /\ (Per = 0 => t <= D)
PhaseCounts == Per = 0 => (t < D => NextT(C, t) = t + 1)
Settles == k = MaxT => Abs(s.y[1] - (Goal * U)) <= U \div 20
Bounded == Abs(s.y[1]) <= Abs(Goal) * 2 * U
=============================================================================
