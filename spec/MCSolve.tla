--------------------------------- MODULE MCSolve ---------------------------------
(* Design: iterating the Bellman operator on every deterministic process with 2 states  *)
(* and 2 actions satisfies the optimality equation and dominates every stationary        *)
(* policy, one of which attains it; the breadth-first value is the best signed power of  *)
(* the discount over all action sequences.                                               *)
EXTENDS Solve, TLC
CONSTANTS Rs, Gs, Tops
RsD == {-1, 0, 2}
VARIABLES c, t, V, W, k
vars == <<c, t, V, W, k>>
Cells == (1..2) \X (1..2)
Pis == {<<i, j>> : i, j \in 1..2}
Iters == 24
Init == /\ \E rw \in [Cells -> Rs], nx \in [Cells -> 1..2], g \in Gs :
              c = [n |-> 2, nA |-> 2, g |-> g, p |-> [x \in 1..2 |-> [a \in 1..2 |-> [y \in 1..2 |-> IF nx[<<x, a>>] = y THEN 16 ELSE 0]]],
                   r |-> [x \in 1..2 |-> [a \in 1..2 |-> [y \in 1..2 |-> rw[<<x, a>>]]]],
                   t |-> [x \in 1..2 |-> [a \in 1..2 |-> <<nx[<<x, a>>], IF rw[<<x, a>>] = 0 THEN 0 ELSE IF rw[<<x, a>>] > 0 THEN 1 ELSE -1>>]]]
        /\ t \in Tops
        /\ V = <<0, 0>> /\ W = [pi \in Pis |-> <<0, 0>>] /\ k = 0
\* one sweep of value iteration, and one of evaluation for every stationary policy
Next == /\ k < Iters
        /\ k' = k + 1
        /\ V' = <<Best(c, V, 1), Best(c, V, 2)>>
        /\ W' = [pi \in Pis |-> <<Qv(c, W[pi], 1, pi[1]), Qv(c, W[pi], 2, pi[2])>>]
        /\ UNCHANGED <<c, t>>
Fix == k = Iters => BellmanOK(c, V, 2)
Dominates == k = Iters => \A pi \in Pis : \A x \in 1..2 : W[pi][x] <= V[x] + 3
Attained == k = Iters => \E pi \in Pis : \A x \in 1..2 : Near(W[pi][x], V[x], 3)
\* whether a sequence of exactly k further steps reaches success
RECURSIVE Reach(_, _)
Reach(x, n) == \E a \in 1..2 : IF n = 1 THEN c.t[x][a][2] = 1 ELSE c.t[x][a][2] = 0 /\ Reach(c.t[x][a][1], n - 1)
CarOK == k = 0 => \A x, a \in 1..2 :
           LET v == CarQ(c, x, a, t)
               o == c.t[x][a]
           IN IF o[2] # 0 THEN v = 1000000 * o[2]
              ELSE LET D == {n \in 2..(t - 1) : Reach(o[1], n - 1)}
                   IN IF D = {} THEN v < 0 ELSE v = Gam(c.g, (CHOOSE n \in D : \A j \in D : n <= j) - 1)
=============================================================================
