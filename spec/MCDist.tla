--------------------------------- MODULE MCDist ---------------------------------
(* Design: the gradient with respect to the mean is the exact central difference of the *)
(* log density; the density peaks at the mean where it equals the entropy up to D/2;    *)
(* the weighted estimates do not depend on a common factor of the weights or on points  *)
(* of weight zero; KL divergences vanish only without change.                           *)
EXTENDS Dist, TLC
CONSTANTS Ls, Xs
VARIABLES c, s, x
Lnt == <<0, 6931, 10986, 13863, 16094, 17918, 19459, 20794>>
E1_ == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2>>
\* exp(-k/100) by products
RECURSIVE Ek(_)
Ek(k) == IF k = 0 THEN 1000000 ELSE M6(Ek(k - 1), 990050)
E2_ == [k \in 1..101 |-> Ek(k - 1)]
Init == /\ \E k \in {"full", "diag", "chol"} : \E a, b \in Ls : \E q \in {-1, 0, 2} :
             c = [k |-> k, m |-> <<0, 1>>, l |-> <<a, IF k = "diag" THEN 0 ELSE q, b>>, ln |-> Lnt, e1 |-> E1_, e2 |-> E2_]
        /\ s = Start(c) /\ x \in Xs \X Xs
Next == UNCHANGED <<c, s, x>>
Sh(k, h) == [s EXCEPT !.m[k] = @ + h]
Central == \A k \in 1..2 : Near(LogP(c, Sh(k, 1), x) - LogP(c, Sh(k, -1), x), 5 * Grad(c, s, x)[k], 30)
Peak == LogP(c, s, x) <= LogP(c, s, s.m) /\ Near(Entropy(c, s), 10000 - LogP(c, s, s.m), 3)
E(w) == [th |-> <<x, <<0, 0>>, <<3, 1>>, <<-2, 4>>>>, w |-> w]
Scale == \A i, j \in 1..2 : /\ MleMean(c, E(<<1, 2, 1, 3>>)) = MleMean(c, E(<<2, 4, 2, 6>>))
                            /\ MleCov(c, E(<<1, 2, 1, 3>>), i, j) = MleCov(c, E(<<2, 4, 2, 6>>), i, j)
Drop == \A i, j \in 1..2 : MleCov(c, E(<<0, 2, 1, 3>>), i, j) = MleCov(c, [th |-> <<<<0, 0>>, <<3, 1>>, <<-2, 4>>>>, w |-> <<2, 1, 3>>], i, j)
KlOK == \A a, b \in {3000, 10000, 25000} : \A d \in {0, 5000} : LET k == Kl1(c, 0, a, d, b) IN k >= -3 /\ ((a = b /\ d = 0) => Near(k, 0, 2)) /\ ((a # b) => k > 50)
=============================================================================
