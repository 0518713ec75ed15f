---------------------------------- MODULE Solve ----------------------------------
(* The solvers: dynamic programming on finite processes (probabilities and discount in  *)
(* 1/16, values in 1e-4), tree search for the car on hill (values in 1e-6), and          *)
(* linear-quadratic regulators (values in 1e-3, matrices in 1/4).                        *)
EXTENDS Num
Start(c) == [z |-> 0]
U == 10000
\* ---------------------------------------------------------------- finite processes
Qv(c, V, x, a) == Rd(SumTo([y \in 1..c.n |-> c.p[x][a][y] * ((U * c.r[x][a][y]) + Rd(c.g * V[y], 16))], c.n), 16)
Best(c, V, x) == LET S == {Qv(c, V, x, a) : a \in 1..c.nA} IN CHOOSE m \in S : \A v \in S : v <= m
BellmanOK(c, V, tol) == Len(V) = c.n /\ \A x \in 1..c.n : Near(V[x], Best(c, V, x), tol)
PolicyOK(c, V, pi, tol) == Len(pi) = c.n /\ \A x \in 1..c.n : pi[x] \in 1..c.nA /\ Near(V[x], Qv(c, V, x, pi[x]), tol)
\* ---------------------------------------------------------------- tree search: c.t[x][a] = <<next, reward>>
RECURSIVE Gam(_, _)
Gam(g, k) == IF k = 0 THEN 1000000 ELSE Rd(g * Gam(g, k - 1), 16)
\* value of a frontier at depth k
RECURSIVE Search(_, _, _, _)
Search(c, F, k, top) ==
    IF F = {} \/ k = top THEN -Gam(c.g, k - 1)
    ELSE IF \E x \in F, a \in 1..2 : c.t[x][a][2] = 1 THEN Gam(c.g, k - 1)
    ELSE Search(c, {c.t[x][a][1] : <<x, a>> \in {z \in F \X (1..2) : c.t[z[1]][z[2]][2] = 0}}, k + 1, top)
CarQ(c, x, a, top) == LET o == c.t[x][a] IN CASE o[2] = 1 -> 1000000 [] o[2] = -1 -> -1000000 [] OTHER -> Search(c, {o[1]}, 2, top)
\* ---------------------------------------------------------------- regulators
Quad(M, s) == SumTo([i \in 1..Len(s) |-> s[i] * SumTo([j \in 1..Len(s) |-> M[i][j] * s[j]], Len(s))], Len(s))
Cost(c, s, a) == 250 * (Quad(c.Q, s) + Quad(c.R, a))
Tol(v) == 4 + (Abs(v) \div 2000)
Avg(q) == q.m + Rd(SumTo([i \in 1..Len(q.pm) |-> q.pm[i][1] + q.pm[i][2] - (2 * q.m)], Len(q.pm)), 2)
Rich(d) == Rd((4 * 32 * d[1]) - (16 * d[2]), 3)
LqrOK(c, e) ==
    Chk(Near(e.q, -Cost(c, e.s, e.a) + Rd(c.g * e.vn, 16), Tol(e.q)), "ActionValue")
    \cup Chk(Near(e.v, e.qpi, Tol(e.v)), "StateValue")
    \cup Chk(Near(e.gq, -Cost(c, e.s, e.a) + Rd(c.g * e.gvn, 16), Tol(e.gq)), "GaussianActionValue")
    \cup Chk(Near(e.gv, Avg(e.gqs), 4 * Tol(e.gv)), "GaussianStateValue")
    \cup Chk(\A i \in 1..Len(e.dv) : Near(e.dv[i], Rich(e.fv[i]), 3000 + (Abs(e.dv[i]) \div 200)), "ValueGradient")
    \cup Chk(\A i \in 1..Len(e.dq) : Near(e.dq[i], Rich(e.fq[i]), 3000 + (Abs(e.dq[i]) \div 200)), "ActionValueGradient")
\* the optimal gain cannot be improved by changing one action
GainOK(e) == \A i \in 1..Len(e.alt) : e.alt[i] <= e.q + Tol(e.q)
Apply(c, s, e) ==
    CASE e.op = "vi" -> R(s, Chk(BellmanOK(c, e.V, e.tol + 3), "ValueIteration"))
      [] e.op = "pi" -> R(s, Chk(BellmanOK(c, e.V, 3), "PolicyIterationValue") \cup Chk(PolicyOK(c, e.V, e.pi, 3), "PolicyIterationPolicy"))
      [] e.op = "car" -> R(s, Chk(Len(e.q) = Len(e.x) /\ \A i \in 1..Len(e.x) : Near(e.q[i], CarQ(c, e.x[i], e.a[i], e.top), 12), "CarOnHillValues"))
      [] e.op = "lqr" -> R(s, LqrOK(c, e))
      [] e.op = "gain" -> R(s, Chk(GainOK(e), "OptimalGain"))
      [] e.op = "same" -> R(s, Chk(e.same = 1, "InputsNotModified"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
