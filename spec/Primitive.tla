-------------------------------- MODULE Primitive --------------------------------
(* Movement primitives.  ProMP: the mean of the action is a polynomial of the phase t / D,    *)
(* where t counts the steps of the episode (it stops at D unless periodic).  DMP: two coupled  *)
(* linear systems integrated with Euler steps.  Numbers are scaled: ProMP by D*D, DMP by U.    *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
U == 8192
\* rounded division
Div(a, b) == IF b < 0 THEN ((-a) + ((-b) \div 2)) \div (-b) ELSE (a + (b \div 2)) \div b
Zero(c) == [i \in 1..c.n |-> 0]
Start(c) == [t |-> 0, w |-> c.w, v |-> Zero(c), x |-> Zero(c), y |-> Zero(c), z |-> Zero(c), g |-> c.g]
--------------------------------------------------------------------------------
NextT(c, t) == IF c.per = 0 /\ t + 1 > c.d THEN c.d ELSE t + 1
Mean(c, w, t) == [i \in 1..c.n |-> (w[i][1] * c.d * c.d) + (w[i][2] * t * c.d) + (w[i][3] * t * t)]
RECURSIVE Rows(_, _, _, _)
Rows(c, s, q, t) == \* rows of a dataset, each [h, hn, a, last]
    IF q = <<>> THEN TRUE
    ELSE LET e == Head(q) IN e.h = t /\ e.hn = NextT(c, t) /\ e.a = Mean(c, s.w, t) /\ Rows(c, s, Tail(q), IF e.last = 1 THEN 0 ELSE NextT(c, t))
\* squared distance to the mean in units of the (diagonal) covariance 1 / c.prec
RECURSIVE Quad(_, _, _, _)
Quad(c, m, a, i) == IF i > c.n THEN 0 ELSE (c.prec[i] * (a[i] - m[i]) * (a[i] - m[i])) + Quad(c, m, a, i + 1)
--------------------------------------------------------------------------------
\* DMP: gains a/b scaled by 8, dt = 1 / c.dti, tau = c.tau; force (w1 + w2 . x / g) * v
RECURSIVE Dot(_, _, _, _)
Dot(w, x, g, j) == IF j > Len(x) THEN 0 ELSE Div(w[j + 1] * x[j], g[j]) + Dot(w, x, g, j + 1)
Force(c, s, i) == Div(((s.w[i][1] * U) + Dot(s.w[i], s.x, s.g, 1)) * Div(s.v[i], 16), U \div 16)
Pull(al, be, g, y, v) == Div(al * (Div(be * ((g * U) - y), 8) - v), 8)
Euler(c, s) ==
    LET per(q) == Div(q, c.tau * c.dti)
    IN [s EXCEPT !.v = [i \in 1..c.n |-> s.v[i] + per(Pull(c.av, c.bv, s.g[i], s.y[i], s.v[i]))],
                 !.x = [i \in 1..c.n |-> s.x[i] + per(s.v[i])],
                 !.z = [i \in 1..c.n |-> s.z[i] + per(Pull(c.az, c.bz, s.g[i], s.y[i], s.z[i]))],
                 !.y = [i \in 1..c.n |-> s.y[i] + per(s.z[i] + Force(c, s, i))]]
Near(p, q, tol) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Abs(p[i] - q[i]) <= tol
Apply(c, s, e) ==
    CASE e.op = "end" -> R(s, {})
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "reset" -> IF c.mp = "promp" THEN R([s EXCEPT !.t = 0], Chk(e.h = <<0>>, "EpisodesStartAtPhaseZero"))
                           ELSE R([s EXCEPT !.v = Zero(c), !.x = Zero(c), !.y = Zero(c), !.z = Zero(c)], {})
      [] e.op = "draw" /\ c.mp = "promp" ->
            R([s EXCEPT !.t = NextT(c, e.h)],
              Chk(e.a = Mean(c, s.w, e.h), "MeanOfThePhase") \cup Chk(e.hn = NextT(c, e.h), "NextPhase") \cup Chk(e.same = 1, "StateOfTheCallerUnchanged"))
      [] e.op = "law" -> R(s, Chk(\A i \in 1..c.n : Abs(e.m[i] - Mean(c, s.w, e.h)[i]) <= e.tm[i], "SamplesAroundTheMean")
                              \cup Chk(\A i \in 1..c.n : e.v[i] >= e.lo /\ e.v[i] <= e.hi, "CovarianceOfTheSamples"))
      \* e.q: minus twice the logarithm of the density, without the constant, scaled by D^4 and by 1000 / D^4
      [] e.op = "pdf" -> R(s, Chk(IF c.prec = <<>> THEN e.p = (IF e.a = Mean(c, s.w, e.h) THEN 1 ELSE 0)
                                  ELSE Abs(e.q - Quad(c, Mean(c, s.w, e.h), e.a, 1)) <= 2 + (Abs(e.q) \div 10000), "Density"))
      \* a density that vanishes numerically: far from the mean
      [] e.op = "tiny" -> R(s, Chk(e.p = 0 /\ Quad(c, Mean(c, s.w, e.h), e.a, 1) \div (c.d * c.d * c.d * c.d) > 500, "Density"))
      [] e.op = "rows" -> R(s, Chk(Rows(c, s, e.rows, 0), "PhasesOfTheEpisodes"))
      [] e.op = "weights" -> R([s EXCEPT !.w = e.w], Chk(e.got = e.w /\ e.size = e.n, "Weights"))
      [] e.op = "loaded" -> R(s, Chk(e.got = e.want, "SavedAndLoaded"))
      [] e.op = "draw" /\ c.mp = "dmp" ->
            LET n == Euler(c, s) IN R(n, Chk(Near(e.a, n.y, 24), "MotionOfTheSystem"))
      [] e.op = "goal" -> R([s EXCEPT !.g = e.g], Chk(e.got = e.g, "Goal"))
      [] e.op = "prob" -> R(s, Chk(e.p = e.want, "OnlyTheCurrentPoint"))
      [] e.op = "kept" -> R(s, Chk(e.x = e.y, "ReturnedActionsDoNotChange"))
      [] OTHER -> R(s, {"UnknownEvent"})
=============================================================================
