--------------------------------- MODULE MCTD ---------------------------------
(* Q-learning, SARSA, double and speedy Q-learning on all histories of a tiny MDP: *)
(* the values stay within the bounds of the rewards, entries that are not visited  *)
(* stay untouched, and a full learning rate forgets the past.                      *)
EXTENDS TD, TLC
CONSTANTS Algs, Gs, As, Depth
Rewards == {-2, 1}
VARIABLES c, st, n, seen, lastr
Cfg(al, g, a) == [alg |-> al, nS |-> 2, nA |-> 2, nT |-> IF al \in {"double", "maxmin"} THEN 2 ELSE 1, g |-> g, eps |-> 2, prec1 |-> 1,
                  off |-> 1, usedelta |-> 0, lr |-> [k |-> "const", a |-> a, b |-> 0, n |-> 1, per |-> "one"],
                  lb |-> [k |-> "const", a |-> 8, b |-> 0, n |-> 1, per |-> "one"]]
Init == /\ c \in {Cfg(al, g, a) : al \in Algs, g \in Gs, a \in As}
        /\ st = Start(c) /\ n = 0 /\ seen = {} /\ lastr = <<>>
\* the tables allowed by the specification after one transition
Step == \E s \in 1..2, a \in 1..2, s2 \in 1..2, r \in Rewards, ab \in {0, 1}, na \in 1..2, k \in 1..c.nT :
          LET e0 == [op |-> "fit", s |-> s, a |-> a, s2 |-> s2, r |-> r, ab |-> ab, na |-> IF c.alg = "sarsa" THEN na ELSE 0]
              f == Val(c.lr, 1)
              X == IF c.alg = "speedy"
                   THEN LET mc == IF ab = 1 THEN 0 ELSE Max(st.q[1][s2])
                            mo == IF ab = 1 THEN 0 ELSE Max(st.old[s2])
                            d == (c.g * (mc - mo)) \div 16
                        IN {Towards(c, f, st.q[1][s][a], r, mo) + d - Mul(f, d)}
                   ELSE {Towards(c, f, st.q[k][s][a], r, x) : x \in NextQ(c, st, e0, k)}
          IN \E x \in X :
               LET e == [e0 EXCEPT !.op = "fit"] @@ [q |-> [st.q EXCEPT ![k][s][a] = x]]
                   res == Apply(c, st, e)
               IN /\ Assert(res.bad = {}, <<"own update rejected", c, e, res.bad>>)
                  /\ st' = res.s
                  /\ seen' = seen \cup {<<k, s, a>>}
                  /\ lastr' = <<k, s, a, r, ab>>
Next == n < Depth /\ Step /\ n' = n + 1 /\ UNCHANGED c
\* |Q| <= max |r| / (1 - gamma)  (speedy may overshoot by its momentum term)
Bounded == c.alg = "speedy" \/ \A k \in 1..c.nT : \A s \in 1..2 : \A a \in 1..2 :
              Abs(st.q[k][s][a]) * (16 - c.g) <= 16 * 2 * S + 64
Untouched == \A k \in 1..c.nT : \A s \in 1..2 : \A a \in 1..2 : <<k, s, a>> \notin seen => st.q[k][s][a] = 0
FullRate == (lastr # <<>> /\ c.lr.a = 16 /\ (lastr[5] = 1 \/ c.g = 0)) => Near(st.q[lastr[1]][lastr[2]][lastr[3]], lastr[4] * S)
=============================================================================
