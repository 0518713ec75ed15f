---------------------------------- MODULE Approx ----------------------------------
(* Function approximators with a numpy interface: tables, linear models over features and  *)
(* tilings (CMAC), ensembles of them, and the three regressors built on top: generic,       *)
(* one output per action, one model per action.                                            *)
(* s.M[g][m] is the matrix (outputs x features) of model m of group g; the groups are the    *)
(* actions of an action regressor, and a single one otherwise.  Numbers in 1e-6.             *)
EXTENDS Fix
LOCAL F == INSTANCE Feat
Start(c) == [M |-> c.M]
Dot(w, p) == SumTo([k \in 1..Len(p) |-> Mp(w[k], p[k])], Len(p))
Phi(c, x) == CASE c.phi = "id" -> x
               [] c.phi = "aff" -> <<One>> \o x
               [] c.phi = "tiles" -> F!Cat([k \in 1..Len(c.T) |-> F!Hot(F!Prod(c.T[k].n), F!TileIx(c.T[k], x))])
Out(W, p) == <<>> \o [o \in 1..Len(W) |-> Dot(W[o], p)]
RECURSIVE Best(_, _, _)
Best(q, k, sg) == IF k = 1 THEN q[1] ELSE LET b == Best(q, k - 1, sg) IN IF sg * q[k] > sg * b THEN q[k] ELSE b
Comb(how, q) == CASE how = "mean" -> Rd(Sum(q), Len(q))
                  [] how = "sum" -> Sum(q)
                  [] how = "min" -> Best(q, Len(q), -1)
                  [] how = "max" -> Best(q, Len(q), 1)
Spread(q, ddof) == LET m == Rd(Sum(q), Len(q)) IN Rd(Sum([k \in 1..Len(q) |-> Mp(q[k] - m, q[k] - m)]), Len(q) - ddof)
\* values of the models of e.idx (from 0): one sequence of values per output
Vals(c, s, x, a, idx) ==
    LET Row(m) == IF c.k = "table" THEN (IF a = -1 THEN s.M[1][m][x + 1] ELSE <<s.M[1][m][x + 1][a + 1]>>)
                  ELSE LET p == Phi(c, x) IN
                  IF c.k = "generic" THEN Out(s.M[1][m], p)
                  ELSE IF c.k = "q" THEN (IF a = -1 THEN Out(s.M[1][m], p) ELSE <<Dot(s.M[1][m][a + 1], p)>>)
                  ELSE (IF a = -1 THEN <<>> \o [g \in 1..Len(s.M) |-> Dot(s.M[g][m][1], p)] ELSE <<Dot(s.M[a + 1][m][1], p)>>)
        r == <<>> \o [k \in 1..Len(idx) |-> Row(idx[k] + 1)]
    IN <<>> \o [o \in 1..Len(r[1]) |-> <<>> \o [k \in 1..Len(r) |-> r[k][o]]]
Tol == 60
PredOK(c, s, e) ==
    LET v == Vals(c, s, e.x, e.a, e.idx)
    IN Len(e.y) = Len(v) /\ \A o \in 1..Len(v) : Near(e.y[o], Comb(e.how, v[o]), Tol)
VarOK(c, s, e) ==
    e.var = <<>> \/ Len(e.idx) = 1 \/ LET v == Vals(c, s, e.x, e.a, e.idx)
                    IN Len(e.var) = Len(v) /\ \A o \in 1..Len(v) : Near(e.var[o], Spread(v[o], 0), 20 * Tol) \/ (Len(e.idx) > 1 /\ Near(e.var[o], Spread(v[o], 1), 20 * Tol))
\* weights of one regressor: groups one after the other, outputs by rows
Flat(c, s, m) == F!Cat(<<>> \o [g \in 1..Len(s.M) |-> F!Cat(s.M[g][m])])
Shape(c, s) == <<Len(s.M), Len(s.M[1][1]), Len(s.M[1][1][1])>>
Unflat(sh, w) == <<>> \o [g \in 1..sh[1] |-> <<>> \o [o \in 1..sh[2] |-> <<>> \o [k \in 1..sh[3] |-> w[(((g - 1) * sh[2]) + (o - 1)) * sh[3] + k]]]]
SeqNear(x, y, t) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k], t)
Setw(c, s, m, w) == LET u == Unflat(Shape(c, s), w) IN [s EXCEPT !.M = <<>> \o [g \in 1..Len(s.M) |-> [s.M[g] EXCEPT ![m] = u[g]]]]
\* derivative with respect to the weights, one sequence per output
DiffOf(c, s, x, a) ==
    LET p == Phi(c, x)
        sh == Shape(c, s)
        n == sh[1] * sh[2] * sh[3]
        Block(b) == <<>> \o [j \in 1..n |-> IF (j - 1) \div sh[3] = b THEN p[((j - 1) % sh[3]) + 1] ELSE 0]
    IN IF a # -1 THEN <<Block(a)>>
       ELSE <<>> \o [o \in 1..sh[2] |-> Block(o - 1)]
\* rows of the data that concern group g
Mine(c, e, g) == {i \in 1..Len(e.X) : c.k # "action" \/ e.A[i] = g - 1}
\* least squares: the residuals are orthogonal to the features
Orthogonal(c, W, e, g) ==
    LET P == <<>> \o [i \in 1..Len(e.X) |-> Phi(c, e.X[i])]
        res == <<>> \o [i \in 1..Len(e.X) |-> <<>> \o [o \in 1..Len(W) |-> e.Y[i][o] - Dot(W[o], P[i])]]
    IN \A o \in 1..Len(W), k \in 1..Len(W[1]) :
         Near(SumTo([i \in 1..Len(e.X) |-> IF i \in Mine(c, e, g) THEN Mp(res[i][o], P[i][k]) ELSE 0], Len(e.X)), 0, 400)
\* CMAC: the error of every sample is shared by its tiles; every tile takes the mean of its shares
CmacFit(c, W, e, g) ==
    LET P == <<>> \o [i \in 1..Len(e.X) |-> Phi(c, e.X[i])]
        n == <<>> \o [i \in 1..Len(e.X) |-> Sum(P[i]) \div One]
        res == <<>> \o [i \in 1..Len(e.X) |-> <<>> \o [o \in 1..Len(W) |-> e.Y[i][o] - Dot(W[o], P[i])]]
        On(k) == {i \in Mine(c, e, g) : P[i][k] = One}
        Delta(o, k) == LET S == On(k) IN IF S = {} THEN 0
                       ELSE Rd(SumTo([i \in 1..Len(e.X) |-> IF i \in S THEN Rd(res[i][o], n[i]) ELSE 0], Len(e.X)), Cardinality(S))
    IN <<>> \o [o \in 1..Len(W) |-> <<>> \o [k \in 1..Len(W[o]) |-> W[o][k] + Mp(e.alpha, Delta(o, k))]]
FitM(c, s, m, e) ==
    LET u == Unflat(Shape(c, s), e.w[m])
        Same(g) == SeqNear(F!Cat(u[g]), F!Cat(s.M[g][m]), 2)
        OK(g) == IF (e.idx # <<>> /\ ~\E j \in 1..Len(e.idx) : e.idx[j] + 1 = m) \/ Mine(c, e, g) = {} THEN Same(g)
                 ELSE IF c.cmac = 1 THEN SeqNear(F!Cat(u[g]), F!Cat(CmacFit(c, s.M[g][m], e, g)), Tol)
                 ELSE Orthogonal(c, u[g], e, g)
    IN \A g \in 1..Len(s.M) : OK(g)
Cell(s, m, x, a, v) == [s EXCEPT !.M = <<[s.M[1] EXCEPT ![m] = [s.M[1][m] EXCEPT ![x + 1] = [s.M[1][m][x + 1] EXCEPT ![a + 1] = v]]]>>]
RECURSIVE Cells(_, _, _)
Cells(s, e, k) == IF k = 0 THEN s ELSE Cell(Cells(s, e, k - 1), e.idx[k] + 1, e.x, e.a, e.v)
RECURSIVE Took(_, _, _, _)
Took(c, s, e, m) == IF m = 0 THEN s ELSE Setw(c, Took(c, s, e, m - 1), m, e.w[m])
Apply(c, s, e) ==
    CASE e.op = "pred" -> R(s, Chk(PredOK(c, s, e), "prediction") \cup Chk(VarOK(c, s, e), "variance"))
      [] e.op = "get" -> R(s, Chk(SeqNear(e.w, Flat(c, s, e.m + 1), 2), "weights") \cup Chk(e.size = Len(Flat(c, s, e.m + 1)), "weights-size"))
      [] e.op = "set" -> R(Setw(c, s, e.m + 1, e.w), {})
      [] e.op = "cell" -> R(Cells(s, e, Len(e.idx)), {})
      [] e.op = "diff" -> R(s, LET d == DiffOf(c, s, e.x, e.a) IN Chk(Len(e.g) = Len(d) /\ \A o \in 1..Len(d) : SeqNear(e.g[o], d[o], 4), "derivative"))
      [] e.op = "fit" -> R(Took(c, s, e, Len(e.w)), Chk(\A m \in 1..Len(e.w) : FitM(c, s, m, e), "fit"))
      [] e.op = "count" -> R(s, Chk(e.got = e.want, "shape"))
      [] e.op = "same" -> R(s, Chk(e.same = 1, "caller-arrays"))
      [] e.op = "exc" -> R(s, {"exception"})
      [] OTHER -> R(s, {})
=============================================================================
