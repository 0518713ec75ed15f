-------------------------------- MODULE MCHockey --------------------------------
(* Design: the puck jumps between characteristic places; contacts happen or not.                *)
EXTENDS Hockey, TLC
CONSTANTS Task, Sub, Depth
VARIABLES s, p, ab, last, live
C == [task |-> Task, sub |-> Sub, n |-> IF Task = "double" THEN 2 ELSE 1, ni |-> 1, pen |-> 0, noise |-> 0, force |-> 0, rnd |-> 0, side |-> "right"]
Xs == {-99000, -85000, -70000, -50000, -30000, 10000, 75000, 95000, 99000}
Ys == {-52000, -48000, -20000, -500, 0, 30000}
P0 == [x |-> -45000, y |-> 0, vx |-> 0, vy |-> 0, w |-> 0, fast |-> 0]
T == [before |-> 3, v4 |-> 0, line |-> 5, stop |-> 7, v3 |-> 0, slow |-> 11, after |-> 13, norm |-> 0]
Init == s = Start(C) /\ p = P0 /\ ab = FALSE /\ last = 0 /\ live = TRUE
Bits == {0, 1}
Move == \E x \in Xs, y \in Ys, f \in Bits, a \in Bits, b \in Bits, d \in Bits :
    LET z == Contacts(s, <<<<a, IF Task = "double" THEN b ELSE 0, d>>>>)
        q == [P0 EXCEPT !.x = x, !.y = y, !.fast = f]
        e == Ends(C, z, q)
    IN live /\ s' = z /\ p' = q /\ ab' = e /\ live' = ~e /\ last' = Score(C, z, q, T, e) - Penalty(C, q, T, e)
Again == s' = [s EXCEPT !.h1 = 0, !.h2 = 0, !.b = 0] /\ p' = P0 /\ ab' = FALSE /\ last' = 0 /\ live' = TRUE
Next == TLCGet("level") <= Depth /\ (Move \/ Again)
FlagsAreBits == s.h1 \in Bits /\ s.h2 \in Bits /\ s.b \in Bits /\ (Task # "double" => s.h2 = 0)
OutEnds == Out(p) => ab
\* nothing but the goal of the opponent pays the big bonus, nothing but the own goal the big penalty
GoalPays == (Task = "hit" /\ last = 200 * U) => (ab /\ p.x > 98000)
OwnGoal == last = -50 * U => (ab /\ p.x < -98000 /\ Abs(p.y) < 25000 /\ Task \in {"defend", "repel"})
BounceEndsRepel == (Task = "repel" /\ s.b = 1) => ab
HitOnlyOut == (Task \in {"hit", "double"} /\ ab) => Out(p)
NoReward == Task = "double" => last = 0
\* the approach term is paid only before the first contact of the episode
ApproachOnce == (last = 3 /\ Task # "double") => (s.h1 = 0)
FlagsStay == [][(live' \/ live) => (s' = [s EXCEPT !.h1 = 0, !.h2 = 0, !.b = 0] \/ (s'.h1 >= s.h1 /\ s'.h2 >= s.h2 /\ s'.b >= s.b))]_<<s, p, ab, last, live>>
=============================================================================
