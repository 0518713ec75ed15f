-------------------------------- MODULE MCBptt --------------------------------
(* Design: data of several episodes grow row by row; windows never mix episodes, they are      *)
(* contiguous, end at their own row, are as long as possible, and start from the policy state  *)
(* of their first row; advantages do not depend on other episodes.                             *)
EXTENDS Bptt, TLC
CONSTANTS Lw, N, G, Lam
VARIABLES d, ep
C == [g |-> G, lam |-> Lam, l |-> Lw, cep |-> 1, pep |-> 1]
Init == d = <<>> /\ ep = <<>>
Row(r, ab, last) ==
    LET n == Len(d)
        new == n = 0 \/ (n > 0 /\ d[n].last = 1)
        k == 2 * n + 1
        s == IF new THEN k ELSE d[n].ns
        h == IF new THEN 0 ELSE d[n].nh
    IN [s |-> s, h |-> h, r |-> r, ns |-> k + 1, nh |-> Hid(h, s), ab |-> ab, last |-> last]
Next == /\ Len(d) < N
        /\ \E r \in {0, 2}, f \in {<<0, 0>>, <<0, 1>>, <<1, 1>>} :
             /\ d' = Append(d, Row(r, f[1], f[2]))
             /\ ep' = Append(ep, IF d = <<>> THEN 1 ELSE IF d[Len(d)].last = 1 THEN ep[Len(ep)] + 1 ELSE ep[Len(ep)])
Pos(i) == Cardinality({j \in 1..i : ep[j] = ep[i]})
OwnEpisode == \A i \in 1..Len(d) : \A j \in First(C, d, i)..i : ep[j] = ep[i]
Longest == \A i \in 1..Len(d) : i - First(C, d, i) + 1 = (IF Pos(i) < Lw THEN Pos(i) ELSE Lw)
EndsAtRow == \A i \in 1..Len(d) : LET w == Window(C, d, i) IN w.q[Len(w.q)] = d[i].s
Starts == \A i \in 1..Len(d) : Window(C, d, i).h = d[First(C, d, i)].h /\ (Pos(i) <= Lw => Window(C, d, i).h = 0)
\* an agent that replays the window from its first policy state arrives at the state of the row
RECURSIVE Roll(_, _, _)
Roll(h, q, k) == IF k > Len(q) THEN h ELSE Roll(Hid(h, q[k]), q, k + 1)
Replays == \A i \in 1..Len(d) : LET w == Window(C, d, i) IN Roll(w.h, w.q, 1) = d[i].nh
StatesChained == Chained(Start(C), d)
\* advantages of an ended episode are final: they depend on the rows of that episode only
EpisodesIndependent == \A i \in 1..Len(d) :
    LET last == CHOOSE j \in 1..Len(d) : ep[j] = ep[i] /\ \A m \in 1..Len(d) : ep[m] = ep[i] => m <= j
        first == CHOOSE j \in 1..Len(d) : ep[j] = ep[i] /\ \A m \in 1..Len(d) : ep[m] = ep[i] => m >= j
    IN Adv(C, d, i) = Adv(C, SubSeq(d, first, last), i - first + 1)
AbsorbingHasNoFuture == \A i \in 1..Len(d) : d[i].ab = 1 => Adv(C, d, i) = U * (d[i].r - V(Window(C, d, i)))
=============================================================================
