--------------------------------- MODULE Hockey ---------------------------------
(* Air hockey (one or two planar robots) and ball in a cup over MuJoCo: which contacts have     *)
(* happened in the episode, when the task ends, which of the terms the reward is made of, and   *)
(* what the robots observe.  Lengths, velocities, angles and rewards are scaled by U.           *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, d) == Abs(x - y) <= d
U == 100000
Start(c) == [h1 |-> 0, h2 |-> 0, b |-> 0, pucks |-> {}, resets |-> 0]
Flag(x) == IF x THEN 1 ELSE 0
--------------------------------------------------------------------------------
Contacts(s, con) == [s EXCEPT !.h1 = Flag(s.h1 = 1 \/ \E k \in 1..Len(con) : con[k][1] = 1),
                              !.h2 = Flag(s.h2 = 1 \/ \E k \in 1..Len(con) : con[k][2] = 1),
                              !.b = Flag(s.b = 1 \/ \E k \in 1..Len(con) : con[k][3] = 1)]
Out(p) == Abs(p.x) > 98000 \/ Abs(p.y) > 51000 \/ p.fast = 1
Ends(c, s, p) ==
    \/ Out(p)
    \/ c.task = "defend" /\ (s.h1 = 1 \/ s.b = 1) /\ p.x > 0
    \/ c.task = "repel" /\ s.b = 1
    \/ c.task = "prepare" /\ s.h1 = 1 /\ (p.x > 0 \/ Abs(p.y) < 1000)
    \/ c.task = "prepare" /\ c.sub = "side" /\ s.b = 1
\* the reward without the penalty of the action
Score(c, s, p, t, ab) ==
    CASE c.task = "hit" ->
            IF ab THEN (IF p.x > 98000 /\ Abs(p.y) < 25000 THEN 200 * U ELSE 0)
            ELSE IF s.h1 = 0 THEN t.before
            ELSE (2 * (25000 + t.v4)) + (IF p.x > 70000 THEN 10 * t.line ELSE 0)
      [] c.task = "defend" ->
            IF ab THEN (IF p.x < -98000 /\ Abs(p.y) < 25000 THEN -50 * U ELSE 0)
            ELSE IF s.b = 1 THEN -U
            ELSE IF s.h1 = 1 THEN (IF p.x > -80000 /\ p.x < -40000 THEN t.stop ELSE 0)
            ELSE t.before
      [] c.task = "repel" ->
            IF ab THEN (IF p.x < -98000 /\ Abs(p.y) < 25000 THEN -50 * U ELSE 0)
            ELSE IF s.h1 = 1 THEN p.x + 98000 + t.v3 + U + (IF p.x > 90000 THEN t.line ELSE 0)
            ELSE t.before
      [] c.task = "prepare" /\ c.sub = "side" ->
            IF ab /\ Abs(p.y) < 47000 THEN t.slow
            ELSE IF s.h1 = 1 THEN (IF p.x < -35000 /\ Abs(p.y) < 47000 THEN t.after ELSE 0)
            ELSE t.before
      [] c.task = "prepare" /\ c.sub = "bottom" ->
            IF ab /\ p.x >= -60000 THEN t.slow
            ELSE IF s.h1 = 1 THEN (IF p.x < -60000 /\ p.x > -90000 /\ Abs(p.y) < 47000 THEN t.after ELSE 0)
            ELSE t.before
      [] OTHER -> 0
Bonus(c, p, ab) == c.task = "prepare" /\ ab /\ (IF c.sub = "side" THEN Abs(p.y) < 47000 ELSE p.x >= -60000)
Penalty(c, p, t, ab) == IF c.task = "double" \/ Bonus(c, p, ab) THEN 0 ELSE ((t.norm \div 100) * c.pen) \div 1000
--------------------------------------------------------------------------------
\* the puck as a robot sees it: the second robot sits on the other side, turned around
Puck(p, k) == IF k = 1 THEN <<p.x + 151000, p.y, p.vx, p.vy, p.w>> ELSE <<151000 - p.x, -p.y, -p.vx, -p.vy, p.w>>
Flags(c, s) == IF c.n = 1 THEN <<s.h1 * U, s.b * U>> ELSE <<s.h1 * U, s.h2 * U, s.b * U>>
View(c, s, p) == Puck(p, 1) \o p.arm[1].q \o p.arm[1].qd
                 \o (IF c.n = 2 THEN Puck(p, 2) \o p.arm[2].q \o p.arm[2].qd ELSE <<>>) \o Flags(c, s)
Noisy(c, i) == c.noise = 1 /\ (i \in {1, 2} \/ (c.n = 2 /\ i \in {12, 13}))
Observed(c, s, p, obs) ==
    LET v == View(c, s, p) IN Len(obs) = Len(v) /\ \A i \in 1..Len(v) : Near(obs[i], v[i], IF Noisy(c, i) THEN 1000 ELSE 2)
\* distances to the limits, negative when they are kept; the second robot mirrored
Limits(c, k, p, x) ==
    LET a == p.arm[k]
        sg == IF k = 1 THEN 1 ELSE -1
        ee == <<sg * a.ee[1], sg * a.ee[2]>>
        l == c.lim[k]
    IN /\ Near(x.ee[1], -ee[1] - 103000, 3) /\ Near(x.ee[2], -ee[2] - 46000, 3) /\ Near(x.ee[3], ee[2] - 46000, 3)
       /\ \A i \in 1..3 : Near(x.q[i], a.q[i] - l.hi[i], 3) /\ Near(x.q[i + 3], l.lo[i] - a.q[i], 3)
                          /\ Near(x.qd[i], a.qd[i] - l.vel[i], 3) /\ Near(x.qd[i + 3], -l.vel[i] - a.qd[i], 3)
--------------------------------------------------------------------------------
Range(c) == CASE c.task = "hit" -> <<-65000, -25000, -40000, 40000>>
              [] c.task \in {"defend", "repel"} -> <<25000, 65000, -40000, 40000>>
              [] c.task = "prepare" /\ c.sub = "side" -> <<-80000, -40000, 25000, 46000>>
              [] c.task = "prepare" -> <<-90000, -80000, 12500, 46000>>
              [] OTHER -> <<0, 0, 0, 0>>
Placed(c, p) ==
    LET g == Range(c)
        y == IF c.task = "prepare" THEN Abs(p.y) ELSE p.y
    IN IF c.rnd = 1 /\ c.task # "double" THEN p.x >= g[1] /\ p.x <= g[2] /\ y >= g[3] /\ y <= g[4]
       ELSE Near(p.x, (g[1] + g[2]) \div 2, 1) /\ Near(p.y, (g[3] + g[4]) \div 2, 1)
Moving(c, p) ==
    IF c.task \in {"defend", "repel"} THEN
        IF c.rnd = 0 THEN p.vx = -U /\ p.vy = 0 /\ p.w = 0
        ELSE LET vx == p.vx \div 10
                 vy == p.vy \div 10
                 sq == (vx * vx) + (vy * vy)
             IN /\ sq >= (c.v0 * c.v0 * 100000000) - 100000 /\ sq <= (c.v1 * c.v1 * 100000000) + 100000
                /\ p.vx < 0 /\ 10000 * Abs(vy) <= -5464 * vx + 10000 /\ Abs(p.w) <= U
    ELSE p.vx = 0 /\ p.vy = 0 /\ p.w = 0
Arm(c) == IF c.task = "hit" /\ c.side = "left" THEN <<92730, -92730, -157080>> ELSE <<-92730, 92730, 157080>>
Still(c, p) == \A k \in 1..c.n : p.arm[k].q = Arm(c) /\ p.arm[k].qd = <<0, 0, 0>>
Reset(c, s, e) ==
    LET z == [s EXCEPT !.h1 = 0, !.h2 = 0, !.b = 0, !.pucks = @ \cup {<<e.raw.x, e.raw.y>>}, !.resets = @ + 1]
    IN R(z, Chk(Placed(c, e.raw), "PuckPlaced") \cup Chk(Moving(c, e.raw), "PuckMoving") \cup Chk(Still(c, e.raw), "ArmsAtRest")
            \cup Chk(Observed(c, z, e.raw, e.obs), "Observation"))
Step(c, s, e) ==
    LET z == Contacts(s, e.con)
        p == e.raw
        ab == Ends(c, z, p)
        want == Score(c, z, p, e.t, ab) - Penalty(c, p, e.t, ab)
    IN R(z, Chk(Len(e.con) = c.ni, "IntermediateSteps")
            \cup Chk(e.ab = Flag(ab), "TaskEnds")
            \cup Chk(Near(e.r, want, 12 + (Abs(want) \div 20000)), "Reward")
            \cup Chk(Observed(c, z, p, e.obs), "Observation")
            \cup Chk(Len(e.info) = c.n /\ \A k \in 1..c.n : Limits(c, k, p, e.info[k]), "Constraints")
            \cup Chk(e.gotee = e.wantee, "EndEffector")
            \cup Chk(e.same = 1, "ActionNotModified")
            \cup Chk(IF c.force = 1 THEN e.forced = 1 ELSE e.forces = 0, "NoiseOfThePuck"))
Cup(c, s, e) ==
    LET in == e.dist < 5000
    IN R(s, Chk(e.r = (IF in THEN U ELSE 0), "CupReward") \cup Chk(e.ab = Flag(in \/ e.touch = 1), "CupEnds"))
Apply(c, s, e) ==
    CASE e.op = "end" -> R(s, Chk(c.task \in {"cup", "double"} \/ s.resets < 2 \/ (c.rnd = 1 <=> \E a, b \in s.pucks : a # b), "RandomStart"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "make" -> R(s, Chk(e.got = e.want, "Problem"))
      [] e.op = "reset" -> Reset(c, s, e)
      [] e.op = "step" -> Step(c, s, e)
      [] e.op = "cupreset" -> R(s, Chk(e.obs = e.first, "SameStart"))
      [] e.op = "cupstep" -> Cup(c, s, e)
      [] OTHER -> R(s, {"UnknownEvent"})
=============================================================================
