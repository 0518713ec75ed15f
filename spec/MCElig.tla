-------------------------------- MODULE MCElig --------------------------------
(* Design: with lambda = 0 the traces reduce to one-step updates; the traces are    *)
(* bounded (replacing traces by one) and cleared at the start of an episode; with   *)
(* a single visit all variants agree.                                               *)
EXTENDS Elig, TLC
CONSTANTS Depth, Lams
VARIABLES c, st, n, k
Cfg(al, tr, l, a) == [alg |-> al, tr |-> tr, nS |-> 2, nA |-> 2, nF |-> 2, phi |-> <<<<1, 0>>, <<0, 1>>>>, g |-> 8, lam |-> l, a |-> a]
Init == c \in {Cfg(al, tr, l, a) : al \in {"sarsal", "qlambda", "true"}, tr \in {"replacing", "accumulating"}, l \in Lams, a \in {8, 16}}
        /\ st = Start(c) /\ n = 0 /\ k = 0
Fit == \E s \in 1..2, a \in 1..2, s2 \in 1..2, na \in 1..2, r \in {-2, 1}, ab \in {0, 1} :
         LET e == [op |-> "fit", s |-> s, a |-> a, s2 |-> s2, na |-> na, r |-> r, ab |-> ab]
             e2 == e @@ [w |-> Weights(c, st, e)]
             res == Apply(c, st, e2)
             one == st.w[a][s] + (c.a * (r * SQ + (c.g * NextQ(c, st, e)) \div 16 - st.w[a][s])) \div 16
         IN /\ Assert(res.bad = {}, <<"own update rejected", e2, res.bad>>)
            /\ Assert((c.lam = 0 /\ c.alg # "true") => (res.s.w[a][s] - one \in -2..2
                                     /\ \A b \in 1..2 : \A f \in 1..2 : <<b, f>> # <<a, s>> => res.s.w[b][f] = st.w[b][f]), "lambda 0 is one-step")
            /\ Assert(k = 0 => res.s.w[a][s] - one \in -2..2, "first visit is one-step")
            /\ st' = res.s /\ k' = k + 1
Begin == st' = Apply(c, st, [op |-> "start"]).s /\ k' = 0
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED c /\ (Fit \/ Begin)
Bounds == \A b \in 1..2 : \A f \in 1..2 : st.e[b][f] >= 0 /\ st.e[b][f] <= (IF c.tr = "replacing" /\ c.alg # "true" THEN SE ELSE 2 * SE)
=============================================================================
