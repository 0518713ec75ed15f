-------------------------------- MODULE MCGauss --------------------------------
(* Design: the specified gradient of the log density with respect to the weights of    *)
(* the mean is its (exact, the density being log-quadratic) central difference; the     *)
(* density is symmetric around the mean and largest there; the gradient with respect    *)
(* to a deviation vanishes where the squared deviation equals the variance.             *)
EXTENDS Gauss, TLC
CONSTANTS Ws, As, Xs
VARIABLES c, s, x, a
\* 1e4 ln k for k = 1..40, and 1e4 exp(-m/2), m = -6..6
Ln == <<0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 24849, 25649, 26391, 27081, 27726, 28332, 28904, 29444, 29957, 30445, 30910, 31355, 31781, 32189, 32581, 32958, 33322, 33673, 34012, 34340, 34657, 34965, 35264, 35553, 35835, 36109, 36376, 36636, 36889>>
Ex == <<200855, 121825, 73891, 44817, 27183, 16487, 10000, 6065, 3679, 2231, 1353, 821, 498>>
Base(k, nA, w, sg) == [k |-> k, nA |-> nA, nF |-> 1, w |-> w, sg |-> sg, ln |-> Ln, ex |-> Ex, e |-> 1, lo |-> <<>>, hi |-> <<>>, wide |-> 1, x0 |-> <<>>]
Init == /\ \E w1, w2 \in Ws :
             c \in {Base("full", 2, <<w1, w2>>, sg) : sg \in {<<1, 0, 1>>, <<2, 1, 3>>, <<5, -3, 2>>}}
                   \cup {Base("diag", 2, <<w1, w2, p, q>>, <<>>) : p, q \in {1, 2, 4}}
                   \cup {Base(k, 2, <<w1, w2, p, q>>, <<>>) : k \in {"std", "lstd", "torch"}, p, q \in {-1, 0, 2}}
        /\ s = Start(c) /\ x \in [1..1 -> Xs] /\ a \in [1..2 -> As]
Next == UNCHANGED <<c, s, x, a>>
Shift(k, h) == [s EXCEPT !.w[k] = @ + h]
Central == \A k \in 1..NM(c) :
             LET fd == LogP(c, Shift(k, 1), x, a) - LogP(c, Shift(k, -1), x, a)
             IN Near(fd, 10 * Grad(c, s, x, a)[k], 30)
Mean == [i \in 1..2 |-> Mu(c, s, x, i)]
Mirror == [i \in 1..2 |-> (2 * Mean[i]) - a[i]]
Symmetric == LogP(c, s, x, a) = LogP(c, s, x, Mirror)
Peak == LogP(c, s, x, a) <= LogP(c, s, x, Mean) /\ Near(Entropy(c, s, x), 10000 - LogP(c, s, x, Mean), 3)
Stationary == c.k = "diag" => \A i \in 1..2 :
                LET b == [Mean EXCEPT ![i] = @ + Sec(c, s, x, i)] IN Grad(c, s, x, b)[NM(c) + i] = 0
\* the gradient of a deviation has the sign of the change of the log density over one step, unless the step passes the optimum
Sign == c.k = "diag" => \A i \in 1..2 :
          LET g == Grad(c, s, x, a)[NM(c) + i]
              d == Abs(Del(c, s, x, a, i))
          IN /\ d > Sec(c, s, x, i) + 1 => g > 0 /\ LogP(c, Shift(NM(c) + i, 1), x, a) > LogP(c, s, x, a)
             /\ d < Sec(c, s, x, i) => g < 0 /\ LogP(c, Shift(NM(c) + i, 1), x, a) < LogP(c, s, x, a)
=============================================================================
