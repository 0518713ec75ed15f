------------------------------- MODULE MCBatchTD -------------------------------
(* Design: on every deterministic process with 2 states and 2 actions whose samples     *)
(* cover it, n iterations give the best return of n steps; boosting sums to the same    *)
(* values, the double estimator on two equal halves too; iterating twice n is iterating *)
(* 2 n; repeating or reordering the samples changes nothing; values are bounded.        *)
EXTENDS BatchTD, TLC
CONSTANTS Rs, Gs, Ns
VARIABLES c, r, nx
Cells == (1..2) \X (1..2)
Init == /\ r \in [Cells -> Rs]
        /\ nx \in [Cells -> 1..3]
        /\ c \in [alg : {"fqi"}, nS : {2}, nA : {2}, g : Gs, n : Ns]
Next == UNCHANGED <<c, r, nx>>
Smp(x, a) == <<x, a, r[<<x, a>>], nx[<<x, a>>], IF nx[<<x, a>>] = 3 THEN 1 ELSE 0>>
Ds == <<Smp(1, 1), Smp(1, 2), Smp(2, 1), Smp(2, 2)>>
Rev == <<Smp(2, 2), Smp(1, 2), Smp(2, 1), Smp(1, 1)>>
With(alg, n) == [c EXCEPT !.alg = alg, !.n = n]
F(n, ds) == Learn(With("fqi", n), Start(With("fqi", n)), ds)
\* best return of n steps from x with first action a
RECURSIVE Best(_, _, _)
Best(x, a, n) == IF n = 0 THEN 0
                 ELSE (U * r[<<x, a>>]) + (IF nx[<<x, a>>] = 3 \/ n = 1 THEN 0
                                           ELSE Disc(c, Max2(Best(nx[<<x, a>>], 1, n - 1), Best(nx[<<x, a>>], 2, n - 1))))
Optimal == \A x, a \in 1..2 : F(c.n, Ds).q[1][x][a] = Best(x, a, c.n)
Order == F(c.n, Ds).q = F(c.n, Rev).q /\ F(c.n, Ds).q = F(c.n, Ds \o Ds).q
Twice == LET w == With("fqi", c.n) IN Learn(w, F(c.n, Ds), Ds).q = F(2 * c.n, Ds).q
Boosted == LET b == With("boosted", c.n)
               t == Learn(b, Start(b), Ds)
           IN \A x, a \in 1..2 : Near(Pred(b, t.q)[x][a], F(c.n, Ds).q[1][x][a], c.n)
Double == LET d == With("double", c.n)
              t == Learn(d, Start(d), Ds \o Ds)
          IN t.ok => t.q[1] = F(c.n, Ds).q[1] /\ t.q[2] = t.q[1]
Bounded == \A x, a \in 1..2 : Abs(F(c.n, Ds).q[1][x][a]) <= 3 * U * c.n
=============================================================================
