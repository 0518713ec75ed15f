------------------------------- MODULE MCPolGrad -------------------------------
(* Design: the gradients with the variance-optimal baseline are invariant when all      *)
(* returns move by the same amount, are linear in the rewards, do not depend on the     *)
(* order of the episodes, vanish for constant returns, and REINFORCE and GPOMDP agree   *)
(* on episodes of one step; a first Adam step has the size of the learning rate.        *)
EXTENDS PolGrad, TLC
CONSTANTS Xs, As, Rs, Ls
VARIABLES c, s, e
Cfg(k, g) == [k |-> k, g |-> g, w |-> <<1>>, cf |-> 0, max |-> 1, lr |-> 16]
Init == /\ \E k \in {"reinforce", "gpomdp"}, g \in {1, 2} : c = Cfg(k, g)
        /\ s = Start(c)
        /\ \E l1, l2 \in Ls : \E z1 \in [1..l1 -> Xs \X As \X Rs], z2 \in [1..l2 -> Xs \X As \X Rs] :
             e = [x |-> <<[t \in 1..l1 |-> <<z1[t][1]>>], [t \in 1..l2 |-> <<z2[t][1]>>]>>,
                  a |-> <<[t \in 1..l1 |-> z1[t][2]], [t \in 1..l2 |-> z2[t][2]]>>,
                  r |-> <<[t \in 1..l1 |-> z1[t][3]], [t \in 1..l2 |-> z2[t][3]]>>]
Next == UNCHANGED <<c, s, e>>
G(z) == IF c.k = "reinforce" THEN Reinforce(c, s, z)[1] ELSE Gpomdp(c, s, z)[1]
Swap == [x |-> <<e.x[2], e.x[1]>>, a |-> <<e.a[2], e.a[1]>>, r |-> <<e.r[2], e.r[1]>>]
\* moves the return of both episodes by the same amount
Moved == [e EXCEPT !.r[1][1] = @ + 2, !.r[2][1] = @ + 2]
Twice == [e EXCEPT !.r = [i \in 1..2 |-> [t \in 1..NS(e, i) |-> 2 * e.r[i][t]]]]
Order == Near(G(e), G(Swap), 2)
Invariant == Near(G(e), G(Moved), 4)
Linear == Near(2 * G(e), G(Twice), 6)
Constant == (c.k = "reinforce" /\ J32(c, e, 1) = J32(c, e, 2)) => Near(G(e), 0, 2)
OneStep == (NS(e, 1) = 1 /\ NS(e, 2) = 1) => Near(Reinforce(c, s, e)[1], Gpomdp(c, s, e)[1], 2)
FirstAdam == \A g \in {-3, -1, 1, 4} : LET t == Adam(c, s, [gr |-> <<g>>]) IN Near(AdamStep(c, t, 1), IF g > 0 THEN 10000 ELSE -10000, 10)
=============================================================================
