-------------------------------- MODULE BatchTD --------------------------------
(* Fitted Q-iteration (plain, double, boosted) and least-squares policy iteration with  *)
(* exact (one-hot least squares) regressors.  Values are in 1e-4.                        *)
(* c.alg, c.nS, c.nA, c.g (gamma in quarters), c.n iterations per fit.                   *)
(* s.q[m][x][a] value of model m, s.k iterations done.                                   *)
(* A sample is <<x, a, r, xn, ab>>, xn = nS + 1 only when absorbing (features are zero). *)
EXTENDS Num
Models(c) == IF c.alg = "double" THEN 1..2 ELSE IF c.alg = "boosted" THEN 1..c.n ELSE 1..1
Zeros(c) == [x \in 1..c.nS |-> [a \in 1..c.nA |-> 0]]
Start(c) == [q |-> [m \in Models(c) |-> Zeros(c)], k |-> 0, ok |-> TRUE]
U == 10000
MaxQ(c, q, x) == LET v == {q[x][a] : a \in 1..c.nA} IN CHOOSE m \in v : \A w \in v : w <= m
Arg(c, q, x) == CHOOSE a \in 1..c.nA : \A b \in 1..c.nA : q[x][b] <= q[x][a]
Tie(c, q, x) == \E b \in 1..c.nA : b # Arg(c, q, x) /\ q[x][b] > q[x][Arg(c, q, x)] - 100
Disc(c, v) == Rd(c.g * v, 4)
\* mean of the targets of the samples of a cell; a state without samples of the action has value zero, an action without samples keeps its model
Fit(c, q, ds, y) ==
    [x \in 1..c.nS |-> [a \in 1..c.nA |->
        LET I == {i \in 1..Len(ds) : ds[i][1] = x /\ ds[i][2] = a}
            A == {i \in 1..Len(ds) : ds[i][2] = a}
        IN IF A = {} THEN q[x][a]
           ELSE IF I = {} THEN 0
           ELSE Rd(SumTo([i \in 1..Len(ds) |-> IF i \in I THEN y[i] ELSE 0], Len(ds)), Cardinality(I))]]
Y(c, q, ds, first) == [i \in 1..Len(ds) |-> (U * ds[i][3]) + (IF first \/ ds[i][5] = 1 THEN 0 ELSE Disc(c, MaxQ(c, q, ds[i][4])))]
\* double: the action of one model is valued by the other
YD(c, q, p, ds, first) == [i \in 1..Len(ds) |-> (U * ds[i][3]) + (IF first \/ ds[i][5] = 1 THEN 0 ELSE Disc(c, p[ds[i][4]][Arg(c, q, ds[i][4])]))]
RECURSIVE Iter(_, _, _, _)
Iter(c, q, ds, k) == IF k = c.n + 1 THEN q ELSE Iter(c, Fit(c, q, ds, Y(c, q, ds, k = 1)), ds, k + 1)
Fqi(c, s, ds) == LET first == IF s.k = 0 THEN 1 ELSE 2
                 IN Iter([c EXCEPT !.n = first + c.n - 1], s.q[1], ds, first)
Half(ds, i) == LET h == Len(ds) \div 2 IN SubSeq(ds, ((i - 1) * h) + 1, i * h)
RECURSIVE Dbl(_, _, _, _, _)
Dbl(c, p, ds, n, first) ==
    IF n = 0 \/ ~p.ok THEN p
    ELSE LET q == p.q
             tie == ~first /\ \E i \in 1..2 : \E j \in 1..Len(Half(ds, i)) : Half(ds, i)[j][5] = 0 /\ Tie(c, q[i], Half(ds, i)[j][4])
             new == [i \in 1..2 |-> Fit(c, q[i], Half(ds, i), YD(c, q[i], q[3 - i], Half(ds, i), first))]
         IN IF tie THEN [p EXCEPT !.ok = FALSE] ELSE Dbl(c, [p EXCEPT !.q = new], ds, n - 1, FALSE)
\* boosted: model k fits what the sum of the models before it misses
Total(c, q, m) == [x \in 1..c.nS |-> [a \in 1..c.nA |-> SumTo([j \in 1..m |-> q[j][x][a]], m)]]
RECURSIVE Boost(_, _, _, _, _)
Boost(c, q, ds, m, before) ==
    IF m = c.n + 1 THEN q
    ELSE LET y == Y(c, Total(c, q, m - 1), ds, m = 1)
         IN Boost(c, [q EXCEPT ![m] = Fit(c, q[m], ds, [i \in 1..Len(ds) |-> y[i] - before[i]])], ds, m + 1, y)
Learn(c, s, ds) ==
    CASE c.alg = "fqi" -> [s EXCEPT !.q = [m \in {1} |-> Fqi(c, s, ds)], !.k = s.k + c.n]
      [] c.alg = "double" -> [Dbl(c, s, ds, c.n, s.k = 0) EXCEPT !.k = s.k + c.n]
      [] c.alg = "boosted" -> [s EXCEPT !.q = Boost(c, s.q, ds, 1, [i \in 1..Len(ds) |-> 0]), !.k = s.k + c.n]
      [] OTHER -> s
Close(c, q, p, tol) == \A m \in Models(c), x \in 1..c.nS, a \in 1..c.nA : Near(q[m][x][a], p[m][x][a], tol)
\* what the agent predicts and acts on
Pred(c, q) == CASE c.alg = "double" -> [x \in 1..c.nS |-> [a \in 1..c.nA |-> Rd(q[1][x][a] + q[2][x][a], 2)]]
                [] c.alg = "boosted" -> Total(c, q, c.n)
                [] OTHER -> q[1]
\* LSPI: the weights are the values of their own greedy policy in the empirical process
LspiOK(c, ds, q) ==
    \A x \in 1..c.nS, a \in 1..c.nA :
        LET I == {i \in 1..Len(ds) : ds[i][1] = x /\ ds[i][2] = a}
        IN I # {} => Near(Cardinality(I) * q[x][a],
                          SumTo([i \in 1..Len(ds) |-> IF i \in I THEN (U * ds[i][3]) + (IF ds[i][5] = 1 THEN 0 ELSE Disc(c, MaxQ(c, q, ds[i][4]))) ELSE 0], Len(ds)),
                          4 * Cardinality(I))
Greedy(c, p, acts) == \A x \in 1..c.nS : p[x][acts[x]] >= MaxQ(c, p, x) - 2
Apply(c, s, e) ==
    CASE e.op = "fit" ->
           LET t == IF c.alg = "lspi" THEN [s EXCEPT !.q = e.q] ELSE Learn(c, s, e.ds)
           IN R([q |-> e.q, k |-> t.k, ok |-> t.ok],
                (IF c.alg = "lspi" THEN Chk(LspiOK(c, e.ds, e.q[1]), "LspiFixedPoint")
                 ELSE IF ~t.ok THEN {}
                 ELSE Chk(Close(c, e.q, t.q, 2 + (2 * c.n)), "FittedValues"))
                \cup Chk(\A x \in 1..c.nS, a \in 1..c.nA : Near(e.p[x][a], Pred(c, e.q)[x][a], c.n + 2), "Prediction")
                \cup Chk(Greedy(c, e.p, e.acts), "GreedyPolicy")
                \cup Chk(e.same = 1, "DatasetNotModified"))
      [] e.op = "same" -> R(s, Chk(Close(c, e.q, s.q, 1), "LoadedValues"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
