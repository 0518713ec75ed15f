------------------------------ MODULE MCFiniteEnv ------------------------------
(* Design: on every small map, probabilities sum to one from every state that is not    *)
(* terminal and to zero elsewhere, moves stay on free cells at distance at most one,     *)
(* collected passengers stay collected and no state with an uncollected passenger in     *)
(* its cell is entered, and free grid moves can be undone.                               *)
EXTENDS FiniteEnv, TLC
CONSTANTS Hs, Ws, Probs, Chars
VARIABLES c
Init == \E h \in Hs, w \in Ws : \E m \in [1..h -> [1..w -> Chars]], p \in Probs :
            c = [k |-> "taxi", map |-> m, prob |-> p, pos |-> 1, neg |-> -1, rew |-> <<0, 1, 2, 3, 4>>, slip |-> 0, h |-> h, w |-> w]
Next == UNCHANGED c
L == Cells(c)
N == Len(L)
Adj(q, t) == Abs(q[1] - t[1]) + Abs(q[2] - t[2]) <= 1
SumGrid == \A i \in 1..N, a \in 1..4 : SumTo([j \in 1..N |-> PGrid(c, L[i], a, L[j])], N) = (IF Ty(c, L[i]) \in {"G", "*"} THEN 0 ELSE 16)
Local == \A i, j \in 1..N, a \in 1..4 : PGrid(c, L[i], a, L[j]) > 0 => Adj(L[i], L[j])
Bs == 0..(Pow(2, Len(Pass(c))) - 1)
SumTaxi == \A i \in 1..N, a \in 1..4, b \in Bs :
             ~Skip(c, L[i], b) => SumTo([z \in 1..(N * Cardinality(Bs)) |-> PTaxi(c, L[i], b, a, L[((z - 1) % N) + 1], (z - 1) \div N)], N * Cardinality(Bs)) = 32
Kept == \A i, j \in 1..N, a \in 1..4, b, d \in Bs :
          (~Skip(c, L[i], b) /\ PTaxi(c, L[i], b, a, L[j], d) > 0) => Got(c, b) \subseteq Got(c, d) /\ (Ty(c, L[j]) = "F" => L[j] \in Got(c, d))
Undo == \A q \in {L[i] : i \in 1..N}, a \in 1..4 : LET b == IF a % 2 = 1 THEN a + 1 ELSE a - 1
                                                   IN Aim(c, q, Dirs[a]) # q => Aim(c, Aim(c, q, Dirs[a]), Dirs[b]) = q
=============================================================================
