--------------------------------- MODULE EnvDyn ---------------------------------
(* Continuous environments: the state is what was last observed; every step must follow  *)
(* the equations of motion (Runge-Kutta in 1e-6 fixed point), saturate the action, and    *)
(* give the reward and end of the state it reaches.                                       *)
EXTENDS Fix
Start(c) == [x |-> <<>>]
\* ------------------------------------------------------------------ equations of motion: derivative of the velocity(ies)
Hill1(p) == IF p < 0 THEN (2 * p) + One ELSE LET q == One + (5 * Mp(p, p)) IN Dv(Dv(One, q), SqrtP(q))
Hill2(p) == IF p < 0 THEN 2 * One ELSE LET q == One + (5 * Mp(p, p)) IN Dv(Dv(Dv(-15 * p, q), q), SqrtP(q))
Hill(p) == IF p < 0 THEN Mp(p, p) + p ELSE Dv(p, SqrtP(One + (5 * Mp(p, p))))
CarF(x, u) == LET d == Hill1(x[1]) IN
    <<x[2], Dv(u - Mp(9810000, d) - Mp(Mp(x[2], x[2]), Mp(d, Hill2(x[1]))), One + Mp(d, d))>>
PoleF(c, x, u) ==
    LET sn == Sin(x[1])
        cs == Cos(x[1])
        al == Dv(One, c.m + c.M)
        h == Mp(al, Mp(c.m, c.l)) \div 2
    IN <<x[2], Dv(Mp(c.g, sn) - Mp(Mp(h, Mp(x[2], x[2])), Mp(sn, cs)) - Mp(Mp(al, cs), u), Rd(2 * c.l, 3) - Mp(h, Mp(cs, cs)))>>
PendF(c, x, u) ==
    LET w == Clip(x[2], -7853982, 7853982)
    IN <<w, Dv(Mp(Mp(c.m, c.g), Mp(c.l, Sin(x[1]))) - Mp(c.mu, w) + u, Mp(c.m, Mp(c.l, c.l)))>>
\* inertias times 100, time in 10 ms
H1 == 1043675
H3 == 7456220
K2 == 1935450
SegF(x, u) ==
    LET sn == Sin(x[1])
        cs == Cos(x[1])
        h2 == Mp(K2, cs)
        den == Mp(H1, H3) - Mp(h2, h2)
        cen == Rd(Mp(Mp(K2, sn), Mp(x[2], x[2])), 100)
        gr == Mp(3452139, sn)
    IN <<Rd(x[2], 100), -Dv(Mp(h2, cen) - Mp(H1, gr) + Mp(h2 + H1, u), den), Dv(Mp(H3, cen) - Mp(h2, gr) + Mp(H3 + h2, u), den)>>
F(c, x, u) == CASE c.k = "car" -> CarF(x, u) [] c.k = "pole" -> PoleF(c, x, u) [] c.k = "pend" -> PendF(c, x, u) [] c.k = "seg" -> SegF(x, u)
Axpy(x, d, dt) == IF Len(x) = 2 THEN <<x[1] + Mp(d[1], dt), x[2] + Mp(d[2], dt)>> ELSE <<x[1] + Mp(d[1], dt), x[2] + Mp(d[2], dt), x[3] + Mp(d[3], dt)>>
Comb(a, b, d, e) == IF Len(a) = 2 THEN <<Rd(Rd(a[1] + e[1], 2) + b[1] + d[1], 3), Rd(Rd(a[2] + e[2], 2) + b[2] + d[2], 3)>>
                    ELSE <<Rd(Rd(a[1] + e[1], 2) + b[1] + d[1], 3), Rd(Rd(a[2] + e[2], 2) + b[2] + d[2], 3), Rd(Rd(a[3] + e[3], 2) + b[3] + d[3], 3)>>
Rk(c, x, u, dt) ==
    LET a == F(c, x, u)
        b == F(c, Axpy(x, a, dt \div 2), u)
        d == F(c, Axpy(x, b, dt \div 2), u)
        e == F(c, Axpy(x, d, dt), u)
    IN Axpy(x, Comb(a, b, d, e), dt)
RECURSIVE Move(_, _, _, _, _)
Move(c, x, u, dt, n) == IF n = 0 THEN x ELSE Move(c, Rk(c, x, u, dt), u, dt, n - 1)
Dt(c) == CASE c.k = "car" -> <<20000, 5>> [] c.k = "pole" -> <<25000, 4>> [] c.k = "pend" -> <<5000, 2>> [] c.k = "seg" -> <<500000, 2>>
To(c, x, u) == Move(c, x, u, Dt(c)[1], Dt(c)[2])
\* ------------------------------------------------------------------ car on hill
Energy(x) == (Mp(One + Mp(Hill1(x[1]), Hill1(x[1])), Mp(x[2], x[2])) \div 2) + Mp(9810000, Hill(x[1]))
CarStep(c, s, e) ==
    LET u == IF e.a = 1 THEN 4 * One ELSE -4 * One
        y == To(c, s.x, u)
        x == s.x
        n == e.x
        kink == (x[1] < 0) # (n[1] < 0) \/ (x[1] < 0) # (y[1] < 0) \/ Abs(x[1]) < 300000
        lose == n[1] < -One \/ Abs(n[2]) > 3 * One
        win == ~lose /\ n[1] > One
        edge == Near(Abs(n[1]), One, 2) \/ Near(Abs(n[2]), 3 * One, 2)
    IN Chk(Near(n[1], y[1], IF kink THEN 6000 ELSE 300), "Position")
       \cup Chk(Near(n[2], y[2], IF kink THEN 200000 ELSE 1500), "Velocity")
       \cup Chk(Near(Energy(n) - Energy(x), Mp(u, n[1] - x[1]), 200), "Work")
       \cup Chk(edge \/ (e.r = (IF lose THEN -One ELSE IF win THEN One ELSE 0) /\ e.end = (IF lose \/ win THEN 1 ELSE 0)), "RewardAndEnd")
\* ------------------------------------------------------------------ poles
PoleStep(c, s, e) ==
    LET u == IF e.a = 0 THEN -c.u ELSE IF e.a = 1 THEN 0 ELSE c.u
        lo == To(c, s.x, u + c.noise)
        hi == To(c, s.x, u - c.noise)
        n == e.x
        t == 800 + (Abs(n[2]) \div 5000)
        up == Cos(s.x[1]) > 300000 /\ Cos(n[1]) > 300000
    IN Chk(Abs(n[1]) <= Pi + 2, "AngleRange")
       \cup (IF c.noise = 0 THEN Chk(AngNear(n[1], Wrap(lo[1]), t), "Angle") \cup Chk(Near(n[2], lo[2], 6 * t), "AngularVelocity")
             ELSE Chk(up => (lo[2] - (6 * t) <= n[2] /\ n[2] <= hi[2] + (6 * t)), "NoiseBounds"))
       \cup Chk(Near(Abs(n[1]), HalfPi, 2) \/ (IF Abs(n[1]) > HalfPi THEN e.r = -One /\ e.end = 1 ELSE e.r = 0 /\ e.end = 0), "RewardAndEnd")
PendStep(c, s, e) ==
    LET u == Clip(e.a, -c.u, c.u)
        y == To(c, s.x, u)
        n == e.x
        w == Clip(y[2], -7853982, 7853982)
    IN Chk(Abs(n[1]) <= Pi + 2 /\ Abs(n[2]) <= 7853983, "StateRange")
       \cup Chk(AngNear(n[1], Wrap(y[1]), 200), "Angle") \cup Chk(Near(n[2], w, 600), "AngularVelocity")
       \cup Chk(Near(e.r, Cos(n[1]), 30), "Reward") \cup Chk(e.end = 0, "NeverEnds")
SegStep(c, s, e) ==
    LET u == Clip(e.a, -5 * One, 5 * One)
        y == To(c, s.x, u)
        n == e.x
        cost == Rd((30 * Mp(n[1], n[1])) + Mp(n[2], n[2]), 10)
        wheel == Rd(Mp(n[3] \div 10, n[3] \div 10), 1) * 10
    IN Chk(Abs(n[1]) <= Pi + 2, "StateRange")
       \cup Chk(AngNear(n[1], Wrap(y[1]), 300), "Angle") \cup Chk(Near(n[2], y[2], 3000), "AngularVelocity") \cup Chk(Near(n[3], y[3], 3000), "WheelVelocity")
       \cup Chk(Near(Abs(n[1]), HalfPi, 2) \/ (IF Abs(n[1]) > HalfPi THEN e.r = c.lost /\ e.end = 1 ELSE Near(e.r, -(cost + wheel), 3000) /\ e.end = 0), "RewardAndEnd")
\* ------------------------------------------------------------------ ship: explicit Euler, c.gs start of the gate, c.gd direction, c.gl length
Cross(a, b) == Mp(a[1], b[2]) - Mp(a[2], b[1])
\* 1 through the gate, 0 not, 2 undecided by rounding
Gate(c, p, q) ==
    LET d == <<p[1] - c.gs[1], p[2] - c.gs[2]>>
        v == <<q[1] - p[1], q[2] - p[2]>>
    IN IF Abs(d[1]) > 130 * One \/ Abs(d[2]) > 130 * One THEN 0
       ELSE LET den == Cross(c.gd, v)
                cu == Cross(d, c.gd)
                ct == Cross(d, v)
                sg == IF den < 0 THEN -1 ELSE 1
                D == sg * den
                uu == sg * cu
                tt == sg * ct
                tol == 40
                T == c.gl * D
            IN IF D <= tol THEN (IF Abs(cu) > 5000 THEN 0 ELSE 2)
               ELSE IF uu < -tol \/ uu > D + tol \/ tt < -(20 * tol) \/ tt > T + (c.gl * tol) THEN 0
               ELSE IF uu > tol /\ uu < D - tol /\ tt > 20 * tol /\ tt < T - (c.gl * tol) THEN 1 ELSE 2
Euler(x, r) == <<x[1] + Rd(6 * Cos(x[3]), 10), x[2] + Rd(6 * Sin(x[3]), 10), Wrap(x[3] + Rd(x[4], 5)), x[4] + Rd(r - x[4], 25)>>
\* the acceptable outcomes of the remaining k sub-steps
RECURSIVE Sail(_, _, _, _)
Sail(c, x, r, k) ==
    LET y == Euler(x, r)
        f == c.f * One
        out == y[1] > f \/ y[2] > f \/ y[1] < 0 \/ y[2] < 0
        dim == Near(y[1], f, 4) \/ Near(y[2], f, 4) \/ Abs(y[1]) <= 4 \/ Abs(y[2]) <= 4
        g == Gate(c, x, y)
        z == <<Clip(y[1], 0, f), Clip(y[2], 0, f), y[3], y[4]>>
        go == IF k = 1 THEN {[x |-> y, r |-> -One, end |-> 0]} ELSE Sail(c, y, r, k - 1)
    IN (IF out \/ dim THEN {[x |-> z, r |-> -100 * One, end |-> 1]} ELSE {})
       \cup (IF ~out \/ dim THEN (IF g >= 1 THEN {[x |-> y, r |-> 0, end |-> 1]} ELSE {}) \cup (IF g # 1 THEN go ELSE {}) ELSE {})
ShipStep(c, s, e) ==
    LET om == 261799
        S == Sail(c, s.x, Clip(e.a, -om, om), c.n)
        n == e.x
        ok == {z \in S : z.r = e.r /\ z.end = e.end /\ Near(z.x[1], n[1], 40) /\ Near(z.x[2], n[2], 40) /\ AngNear(z.x[3], n[3], 40) /\ Near(z.x[4], n[4], 40)}
    IN Chk(ok # {}, "ShipStep") \cup Chk(Abs(n[3]) <= Pi + 2, "StateRange")
\* ------------------------------------------------------------------ regulator: matrices in 1/4
Lin(M, v) == [i \in 1..Len(M) |-> SumTo([j \in 1..Len(v) |-> Rd(M[i][j] * v[j], 4)], Len(v))]
Qd(M, v) == SumTo([i \in 1..Len(v) |-> Mp(v[i], SumTo([j \in 1..Len(v) |-> Rd(M[i][j] * v[j], 4)], Len(v)))], Len(v))
LqrStep(c, s, e) ==
    LET u == [i \in 1..Len(e.a) |-> IF c.mu = 0 THEN e.a[i] ELSE Clip(e.a[i], -c.mu, c.mu)]
        ax == Lin(c.A, s.x)
        bu == Lin(c.B, u)
        y == [i \in 1..Len(s.x) |-> ax[i] + bu[i]]
        over == c.mp # 0 /\ \E i \in 1..Len(y) : Abs(y[i]) > c.mp + 2
        dim == c.mp # 0 /\ ~over /\ \E i \in 1..Len(y) : Near(Abs(y[i]), c.mp, 2)
        n == e.x
        cost == Qd(c.Q, s.x) + Qd(c.R, u)
        same == Len(n) = Len(y) /\ \A i \in 1..Len(y) : Near(n[i], y[i], 10)
        cut == Len(n) = Len(y) /\ \A i \in 1..Len(y) : Near(n[i], Clip(y[i], -c.mp, c.mp), 10)
        plain == Near(e.r, -cost, 100 + (Abs(cost) \div 10000))
    IN Chk(dim \/ (IF over THEN (IF c.ep = 1 THEN same /\ e.end = 1 /\ Near(e.r, -10 * Mp(c.mp, c.mp), 100) ELSE cut /\ e.end = 0 /\ plain)
                   ELSE same /\ e.end = 0 /\ plain), "RegulatorStep")
\* ------------------------------------------------------------------ puddles
Sq(d, w) == LET q == Dv(d, w) IN IF Abs(q) > 6 * One THEN 36 * One ELSE Mp(q, q)
Depth(c, x, i) == LET y == (Sq(x[1] - c.pc[i][1], c.pw[i][1]) + Sq(x[2] - c.pc[i][2], c.pw[i][2])) \div 2
                  IN IF y >= 12 * One THEN 0 ELSE Mp(c.pa[i], ExpS(c, y))
Puddle(c, x) == -One - SumTo([i \in 1..Len(c.pc) |-> Depth(c, x, i)], Len(c.pc))
PudStep(c, s, e) ==
    LET d == IF e.a = 4 THEN <<0, 0>> ELSE IF e.a = 0 THEN <<-c.t, 0>> ELSE IF e.a = 1 THEN <<c.t, 0>> ELSE IF e.a = 2 THEN <<0, -c.t>> ELSE <<0, c.t>>
        n == e.x
        fits(i) == Clip(s.x[i] + d[i] - c.noise, 0, One) - 2 <= n[i] /\ n[i] <= Clip(s.x[i] + d[i] + c.noise, 0, One) + 2
        dist == Abs(n[1] - c.goal[1]) + Abs(n[2] - c.goal[2])
        there == dist < c.th
        rw == Puddle(c, n)
    IN Chk(Len(n) = 2 /\ fits(1) /\ fits(2), "Movement")
       \cup Chk(Near(dist, c.th, 3) \/ (IF there THEN e.end = 1 /\ e.r = c.rg
                                        ELSE e.end = 0 /\ (c.nr = 1 \/ Near(e.r, rw, 3000 + (Abs(rw) \div 500)))), "RewardAndEnd")
Step(c, s, e) ==
    CASE c.k = "car" -> CarStep(c, s, e) [] c.k = "pole" -> PoleStep(c, s, e) [] c.k = "pend" -> PendStep(c, s, e)
      [] c.k = "seg" -> SegStep(c, s, e) [] c.k = "ship" -> ShipStep(c, s, e) [] c.k = "lqr" -> LqrStep(c, s, e) [] c.k = "pud" -> PudStep(c, s, e)
\* reset without a state: every component within c.lo..c.hi; with one: the state itself (angles normalised, velocity of the pendulum bounded)
Given(c, x) == CASE c.k \in {"pole", "seg"} -> [x EXCEPT ![1] = Wrap(x[1])]
                 [] c.k = "pend" -> <<Wrap(x[1]), Clip(x[2], -7853982, 7853982)>>
                 [] OTHER -> x
ResetOK(c, e) ==
    LET n == e.x IN
    IF e.g = <<>> THEN Len(n) = Len(c.lo) /\ \A i \in 1..Len(n) : c.lo[i] - 2 <= n[i] /\ n[i] <= c.hi[i] + 2
    ELSE LET g == Given(c, e.g) IN Len(n) = Len(g) /\ \A i \in 1..Len(n) : Near(n[i], g[i], 3) \/ (i = 1 /\ c.k \in {"pole", "seg", "pend"} /\ AngNear(n[i], g[i], 3))
Apply(c, s, e) ==
    CASE e.op = "reset" -> R([x |-> e.x], Chk(ResetOK(c, e), "Reset"))
      [] e.op = "step" -> R([x |-> e.x], Step(c, s, e))
      \* repeated samples of one quantity known to lie in lo..hi uniformly (or with deviation sd): sums in units
      [] e.op = "info" -> R(s, Chk(e.got = e.want, "Info"))
      [] e.op = "stat" -> R(s, Chk(Near(e.mean, e.wm, e.tm) /\ Near(e.var, e.wv, e.tv), "NoiseStatistics"))
      [] e.op = "same" -> R(s, Chk(e.same = 1, "EarlierObservationsNotModified"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
