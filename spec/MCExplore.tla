------------------------------- MODULE MCExplore -------------------------------
(* Design: the specified distributions are normalised, give equal probability to      *)
(* equal actions, never less to a better action, are uniform for epsilon = 1 or        *)
(* beta = 0 and greedy for epsilon = 0; schedules move only with draws.                *)
EXTENDS Explore, TLC
CONSTANTS Depth, Vals
VARIABLES c, st, n
\* exp(-k/16), k = 0..128, scaled by M, as a product of rounded factors (good to 1e-4)
RECURSIVE ET(_, _)
ET(k, acc) == IF k = 0 THEN acc ELSE ET(k - 1, Append(acc, ((acc[Len(acc)] \div 100) * 93941) \div 1000))
Tbl == ET(128, <<M>>)
Sch == {[k |-> "const", a |-> a, b |-> 0, n |-> 1, per |-> "one"] : a \in {0, 4, 16}}
       \cup {[k |-> "linear", a |-> a, b |-> 8, n |-> 2, per |-> p] : a \in {0, 16}, p \in {"one", "s"}}
Init == /\ c \in {[k |-> k, nS |-> 2, nA |-> 3, sch |-> s, ex |-> Tbl] : k \in {"eps", "boltz"}, s \in Sch}
        /\ n = 0
        /\ \E r1 \in [1..3 -> Vals], r2 \in {<<0, 0, 4>>} : st = Apply(c, Start(c), [op |-> "setq", q |-> <<r1, r2>>]).s
P(z) == Expected(c, st, z, [op |-> "none"])
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED c
        /\ \E z \in 1..2 :
             \/ st' = Apply(c, st, [op |-> "draw", s |-> z, n |-> 1, cnt |-> <<1, 0, 0>>]).s
             \/ st' = Apply(c, st, [op |-> "update", s |-> z]).s
Good == \A z \in 1..2 :
          LET p == P(z)
              row == st.q[z]
          IN /\ Near(SumTo(p, 3), M, 2500)
             /\ \A a, b \in 1..3 : row[a] = row[b] => p[a] = p[b]
             /\ \A a, b \in 1..3 : row[a] > row[b] => p[a] >= p[b]
             /\ (c.k = "eps" /\ Val(c, st, z) = 0) => \A a \in 1..3 : p[a] > 0 <=> a \in Ties(row)
             /\ (c.k = "eps" /\ Val(c, st, z) = 16) => \A a \in 1..3 : Near(p[a], M \div 3, 3)
             /\ (c.k = "boltz" /\ Val(c, st, z) = 0) => \A a \in 1..3 : Near(p[a], M \div 3, 700)
Sched == \A z \in 1..2 : Val(c, st, z) = (IF c.sch.k = "const" THEN c.sch.a
                                          ELSE c.sch.a + ((8 - c.sch.a) * Min2(2, st.n[Cnt(c, z)])) \div 2)
Count == st.n[1] + st.n[2] = n
=============================================================================
