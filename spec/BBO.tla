---------------------------------- MODULE BBO ----------------------------------
(* Black-box policy search.  Every episode runs with one parameter vector drawn from    *)
(* the distribution (its mean when deterministic); a fit uses exactly the pairs         *)
(* (parameters, discounted return) of the episodes run since the previous fit, and      *)
(* moves the distribution by the rule of the algorithm.                                 *)
(* Parameters: integer vectors; c.g discount in halves, returns in 1/32 (at most five   *)
(* steps per episode); weights 1e-6; logarithms 1e-3.                                   *)
(* c.e1[k] = 1e6 exp(1 - k), c.e2[k] = 1e6 exp((1 - k)/100): the only outside knowledge *)
EXTENDS Integers, Sequences, FiniteSets

Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Rd(a, b) == IF a >= 0 THEN ((2 * a) + b) \div (2 * b) ELSE -((((-2) * a) + b) \div (2 * b))
Fr(a, b) == IF a >= 0 THEN (1000 * (a \div b)) + Rd(1000 * (a % b), b) ELSE -((1000 * ((-a) \div b)) + Rd(1000 * ((-a) % b), b))
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE MaxTo(_, _)
MaxTo(f, k) == IF k = 1 THEN f[1] ELSE IF f[k] > MaxTo(f, k - 1) THEN f[k] ELSE MaxTo(f, k - 1)

NoEp == [th |-> <<>>, j |-> 0, n |-> 0]
Start(c) == [open |-> [i \in 1..c.n |-> NoEp], done |-> <<>>, drawn |-> {}, m |-> c.m]

\* ------------------------------------------------------------------ exponential, logarithm
M6(a, b) == Rd((a \div 1000) * b, 1000) + Rd((a % 1000) * b, 1000000)
\* 1e6 exp(-y), y >= 0 in 1e-3
Exp(c, y) == IF y >= 13000 THEN 0
             ELSE LET a == y \div 1000
                      b == (y % 1000) \div 10
                      r == y % 10
                  IN M6(M6(c.e1[a + 1], c.e2[b + 1]), 1000000 - (1000 * r) + Rd(r * r, 2))
\* -ln of w (1e-6), in 1e-3
RECURSIVE Bis(_, _, _, _)
Bis(c, w, lo, hi) == IF hi - lo <= 1 THEN hi
                     ELSE LET m == (lo + hi) \div 2 IN IF Exp(c, m) > w THEN Bis(c, w, m, hi) ELSE Bis(c, w, lo, m)
NLn(c, w) == IF w >= 1000000 THEN 0 ELSE Bis(c, w, 0, 13000)

\* ------------------------------------------------------------------ pairs
OpenOnes(c, s) == LET I == {i \in 1..c.n : s.open[i].n > 0}
                      RECURSIVE Seq_(_)
                      Seq_(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<[th |-> s.open[i].th, j |-> s.open[i].j]>> \o Seq_(S \ {i})
                  IN Seq_(I)
Pairs(c, s) == s.done \o OpenOnes(c, s)
\* the return of the episode with parameters th (the drawn parameters are all different)
Ret(P, th) == P[CHOOSE k \in 1..Len(P) : P[k].th = th].j
RowsOK(P, rows) == /\ Len(rows) = Len(P)
                   /\ {rows[k] : k \in 1..Len(rows)} = {P[k].th : k \in 1..Len(P)}
                   /\ Cardinality({rows[k] : k \in 1..Len(rows)}) = Len(rows)
Js(P, rows) == [k \in 1..Len(rows) |-> Ret(P, rows[k])]

\* RWR: exp(beta (J - max J)), beta = c.beta/4;  J in 1/32
RwrOK(c, J, w) == \A k \in 1..Len(J) : LET y == Fr(c.beta * (MaxTo(J, Len(J)) - J[k]), 128) IN Near(w[k], Exp(c, y), 700)
\* REPS: exp((J - max J)/eta) with one eta, for which the weighted samples have relative entropy c.eps (1e-3)
MeanW(w) == Rd(SumTo(w, Len(w)), Len(w))
Share(w, k) == LET t == Rd(SumTo(w, Len(w)), 1000) IN Rd(w[k], t)              \* 1e-3
RECURSIVE Ent(_, _, _)
Ent(c, w, k) == IF k = 0 THEN 0 ELSE Ent(c, w, k - 1) + Rd(Share(w, k) * NLn(c, w[k]), 1000)
Kl(c, w) == NLn(c, MeanW(w)) - Ent(c, w, Len(w))
RepsOK(c, J, w) ==
    LET n == Len(J)
        mx == MaxTo(J, n)
        D == [k \in 1..n |-> mx - J[k]]
        U == {k \in 1..n : w[k] > 1000 /\ D[k] > 0}
    IN /\ \A k \in 1..n : D[k] = 0 => w[k] = 1000000
       /\ \A k, j \in 1..n : D[k] > D[j] => w[k] <= w[j] + 2
       /\ \A k, j \in U : LET a == NLn(c, w[k]) * D[j]
                              b == NLn(c, w[j]) * D[k] IN Near(a, b, (3 * (D[k] + D[j])) + (Abs(a) \div 200))
       /\ ((2 * Cardinality({k \in 1..n : D[k] = 0}) <= n) /\ \A k \in 1..n : w[k] > 300) => Near(Kl(c, w), c.eps, 6 + (c.eps \div 25))
\* PGPE: gradient (1e-3) with the variance-optimal baseline; the score of theta is theta - mean
Opt(g, f, n) ==
    LET den == SumTo([i \in 1..n |-> g[i] * g[i]], n)
        num == SumTo([i \in 1..n |-> g[i] * g[i] * f[i]], n)
        sg == SumTo(g, n)
        gf == SumTo([i \in 1..n |-> g[i] * f[i]], n)
    IN IF den = 0 THEN 0 ELSE Rd(Fr(gf, 32) - Rd(sg * Fr(num, den), 32), n)
PgpeOK(c, s, P, gr) == /\ Len(gr) = Len(s.m)
                       /\ \A k \in 1..Len(s.m) : LET n == Len(P)
                                                     w == Opt([i \in 1..n |-> P[i].th[k] - s.m[k]], [i \in 1..n |-> P[i].j], n)
                                                 IN Near(gr[k], w, 4 + (Abs(w) \div 5000))

StepIn(c, o, a, r, det) == [th |-> IF o.n = 0 THEN a ELSE o.th, j |-> o.j + (Pow(c.g, o.n) * Pow(2, 5 - o.n) * r), n |-> o.n + 1]
Apply(c, s, e) ==
    CASE e.op = "draw" -> R([s EXCEPT !.drawn = @ \cup {e.th}], {})
      [] e.op = "step" ->           \* environment e.i, learning
           LET o == s.open[e.i]
               p == StepIn(c, o, e.a, e.r, 0)
           IN R([s EXCEPT !.open[e.i] = IF e.last = 1 THEN NoEp ELSE p, !.done = IF e.last = 1 THEN Append(@, [th |-> p.th, j |-> p.j]) ELSE @],
                Chk(e.a = p.th, "OneParameterVectorPerEpisode")
                \cup Chk(IF e.det = 1 THEN e.a = s.m ELSE e.a \in s.drawn, "ParametersFromTheDistribution")
                \cup Chk(o.n > 0 \/ e.det = 1 \/ \A k \in 1..Len(s.done) : s.done[k].th # e.a, "FreshParametersPerEpisode"))
      [] e.op = "estep" ->          \* evaluation
           R(s, Chk(IF e.det = 1 THEN e.a = s.m ELSE e.a \in s.drawn, "ParametersFromTheDistribution"))
      [] e.op = "fit" ->
           LET P == Pairs(c, s)
               ok == RowsOK(P, e.rows)
               J == Js(P, e.rows)
           IN R([s EXCEPT !.done = <<>>, !.open = [i \in 1..c.n |-> NoEp], !.m = e.m1],
                Chk(e.calls = 1, "OneUpdatePerFit")
                \cup Chk(\A k \in 1..Len(e.ps) : e.ps[k][1] = (IF k = 1 \/ e.ps[k - 1][2] = 1 THEN 0 ELSE e.ps[k - 1][1] + 1), "PolicyState")
                \cup (IF c.k = "pgpe" THEN Chk(PgpeOK(c, s, P, e.grad), "Gradient")
                      ELSE Chk(ok, "ParametersOfTheEpisodes")
                           \cup (IF ~ok THEN {}
                                 ELSE IF c.k = "rwr" THEN Chk(RwrOK(c, J, e.w), "WeightsFromReturns")
                                 ELSE Chk(RepsOK(c, J, e.w), "WeightsFromReturns"))
                           \cup Chk(c.k # "creps" \/ (e.eps = c.eps /\ e.kap = c.kap), "Bounds")))
      [] e.op = "set" -> R([s EXCEPT !.open = [i \in 1..c.n |-> NoEp], !.done = <<>>], {})     \* a new run starts
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
