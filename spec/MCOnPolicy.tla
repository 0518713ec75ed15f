------------------------------- MODULE MCOnPolicy -------------------------------
(* Design: with lambda = 0 the generalised advantage is the bootstrapped one; with      *)
(* lambda = 1 it is the Monte Carlo one; nothing after the end of an episode influences *)
(* the advantages before it; the standardised advantages have mean 0; PPO's surrogate   *)
(* ignores samples whose ratio already left the clipping range in the direction of the  *)
(* advantage, and a first step from the sampling policy is the plain policy gradient.   *)
EXTENDS OnPolicy, TLC
CONSTANTS Len_, Rs, Vs, As
VARIABLES c, e
Cfg(g, l) == [k |-> "ppo", g |-> g, l |-> l, th |-> 0, lr |-> 1, ent |-> 0, h |-> 0, eps |-> 200, bsz |-> 8, ep |-> 1, clip |-> 0,
              ex |-> [k \in 1..130 |-> IF k = 65 THEN 1000 ELSE IF k > 65 THEN 1000 + (65 * (k - 65)) ELSE IF 1000 - (60 * (65 - k)) > 10 THEN 1000 - (60 * (65 - k)) ELSE 10]]
Init == /\ \E g, l \in {0, 2, 4} : c = Cfg(g, l)
        /\ \E r \in [1..Len_ -> Rs], v \in [1..Len_ -> Vs], fl \in [1..Len_ -> {<<0, 0>>, <<0, 1>>, <<1, 1>>}], a \in [1..Len_ -> As] :
             e = [r |-> r, v |-> v, vn |-> [k \in 1..Len_ |-> IF k < Len_ /\ fl[k][2] = 0 THEN v[k + 1] ELSE v[1] + 1],
                  ab |-> [k \in 1..Len_ |-> fl[k][1]], last |-> [k \in 1..Len_ |-> fl[k][2]],
                  a |-> a, x |-> [k \in 1..Len_ |-> 1 + (k % 2)], bs |-> <<[k \in 1..Len_ |-> k]>>]
Next == UNCHANGED <<c, e>>
Close(f, g) == \A k \in 1..Len_ : Near(f[k], g[k], 4)
Lambda0 == c.l = 0 => Close(GaeFrom(c, e, 1), Boot(c, e))
Lambda1 == c.l = 4 => Close(GaeFrom(c, e, 1), Mc(c, e))
Other(k) == [e EXCEPT !.r = [j \in 1..Len_ |-> IF j > k THEN @[j] + 3 ELSE @[j]], !.v = [j \in 1..Len_ |-> IF j > k THEN 0 - @[j] ELSE @[j]]]
NoLeak == \A how \in {"gae", "boot", "mc"} : \A k \in 1..Len_ : e.last[k] = 1 =>
            \A j \in 1..k : Adv(c, e, how)[j] = Adv(c, Other(k), how)[j]
Centred == Std(GaeFrom(c, e, 1)).s > 100 => Near(SumTo(Norm(GaeFrom(c, e, 1)), Len_), 0, 6)
Clip == LET an == Norm(GaeFrom(c, e, 1)) IN \A i \in 1..Len_ : \A th \in {-2000, 2000} :
          /\ (an[i] > 0 /\ Ratio(c, e, 0, th, i) > 1200) => G1(c, e, 0, th, an, i) = 0
          /\ (an[i] < 0 /\ Ratio(c, e, 0, th, i) < 800) => G1(c, e, 0, th, an, i) = 0
First == LET an == Norm(GaeFrom(c, e, 1)) IN
           Near(PStep(c, e, 0, 0, an, e.bs[1]), Rd(Rd(SumTo([i \in 1..Len_ |-> Rd(an[i] * e.a[i] * e.x[i], 4)], Len_), Len_), 64), 2)
=============================================================================
