--------------------------------- MODULE MCBBO ---------------------------------
(* Design: environments run episodes, each with fresh parameters; a fit takes the       *)
(* finished episodes and the pieces of the running ones.  No parameter vector is paired *)
(* with two returns, none is used by two fits, and the weights of the best episodes are *)
(* one; weights decrease with the return and the relative entropy is not negative.      *)
EXTENDS BBO, TLC
CONSTANTS NEnv, Rs, MaxDraw, Horizon
VARIABLES s, k, fitted, lastw
E1_ == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2>>
RECURSIVE Ek(_)
Ek(j) == IF j = 0 THEN 1000000 ELSE M6(Ek(j - 1), 990050)
E2_ == [j \in 1..101 |-> Ek(j - 1)]
c == [k |-> "rwr", n |-> NEnv, g |-> 1, beta |-> 2, eps |-> 0, kap |-> 0, m |-> <<0>>, e1 |-> E1_, e2 |-> E2_]
Init == s = Start(c) /\ k = 0 /\ fitted = {} /\ lastw = <<>>
Draws(i) == s.open[i].n = 0
Step(i, r, last) ==
    /\ k < MaxDraw \/ ~Draws(i)
    /\ s.open[i].n < Horizon
    /\ (last = 0 => s.open[i].n + 1 < Horizon)
    /\ LET th == IF Draws(i) THEN <<k + 1>> ELSE s.open[i].th
           s1 == IF Draws(i) THEN Apply(c, s, [op |-> "draw", th |-> th]).s ELSE s
           z == Apply(c, s1, [op |-> "step", i |-> i, a |-> th, r |-> r, last |-> last, det |-> 0])
       IN s' = z.s /\ z.bad = {}
    /\ k' = IF Draws(i) THEN k + 1 ELSE k
    /\ UNCHANGED <<fitted, lastw>>
W(P) == LET J == [j \in 1..Len(P) |-> P[j].j] IN [j \in 1..Len(P) |-> Exp(c, Fr(c.beta * (MaxTo(J, Len(J)) - J[j]), 128))]
Fit == /\ Len(s.done) >= 2
       /\ LET P == Pairs(c, s)
              rows == [j \in 1..Len(P) |-> P[j].th]
              e == [op |-> "fit", calls |-> 1, rows |-> rows, w |-> W(P), grad |-> <<>>, eps |-> 0, kap |-> 0, ps |-> <<>>, m1 |-> <<0>>]
              z == Apply(c, s, e)
          IN /\ z.bad = {} /\ s' = z.s
             /\ {P[j].th : j \in 1..Len(P)} \cap fitted = {}
             /\ fitted' = fitted \cup {P[j].th : j \in 1..Len(P)}
             /\ lastw' = W(P)
       /\ UNCHANGED k
Next == (\E i \in 1..NEnv, r \in Rs, l \in 0..1 : Step(i, r, l)) \/ Fit
Unique == LET P == Pairs(c, s) IN \A i, j \in 1..Len(P) : P[i].th = P[j].th => i = j
Fresh == \A j \in 1..Len(s.done) : s.done[j].th \notin fitted
FitPossible == Len(s.done) >= 2 => ENABLED Fit
Weights == lastw # <<>> => /\ \E j \in 1..Len(lastw) : lastw[j] = 1000000
                           /\ \A j \in 1..Len(lastw) : lastw[j] \in 0..1000000
                           /\ Kl(c, lastw) >= -3
=============================================================================
