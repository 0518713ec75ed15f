------------------------------- MODULE MCReplay -------------------------------
(* The ring-buffer algorithm (write pointer, full flag, incremental n-step loop   *)
(* with early exit at episode ends) refines the bounded FIFO of n-step windows:   *)
(* every pattern of episode ends up to length MaxT, every n, every capacity.      *)
EXTENDS Replay, TLC
CONSTANTS MaxT, MaxN, MaxCap, MaxAdds
VARIABLES cap, n, s, ring, idx, full, k, adds
vars == <<cap, n, s, ring, idx, full, k, adds>>
D(base, lasts) == [j \in 1..Len(lasts) |-> <<10 * (base + j), 1, j, 10 * (base + j) + 1, 0, lasts[j], -1, -1>>]

\* transcription of the incremental loop: windows stored, in order
RECURSIVE Loop(_, _, _)
RECURSIVE Inner(_, _, _, _, _)
Inner(d, nn, i, j, acc) ==         \* returns <<stored?, next i, reward>>
    IF j >= nn - 1 THEN <<TRUE, i + 1, acc>>
    ELSE IF d[i + j][6] = 1 THEN <<FALSE, i + j + 1, acc>>
    ELSE Inner(d, nn, i, j + 1, acc + (d[i + j + 1][3] * Sc) \div Pow(2, j + 1))
Loop(d, nn, i) ==
    IF ~(i < Len(d) - nn + 2) THEN <<>>
    ELSE LET r == Inner(d, nn, i, 0, d[i][3] * Sc)
             z == d[i + nn - 1]
         IN IF r[1] THEN <<<<d[i][1], d[i][2], r[3], z[4], z[5], z[6], d[i][7], z[8]>>>> \o Loop(d, nn, r[2])
            ELSE Loop(d, nn, r[2])

RECURSIVE PutRing(_, _, _, _)
PutRing(rg, ix, fl, W) ==
    IF W = <<>> THEN <<rg, ix, fl>>
    ELSE LET rg2 == IF fl THEN [rg EXCEPT ![ix + 1] = Head(W)] ELSE Append(rg, Head(W))
             wrap == ix + 1 = cap
         IN PutRing(rg2, IF wrap THEN 0 ELSE ix + 1, fl \/ wrap, Tail(W))

Init == cap \in 1..MaxCap /\ n \in 1..MaxN /\ s = [q |-> <<>>, tot |-> 0] /\ ring = <<>> /\ idx = 0 /\ full = FALSE /\ k = 0 /\ adds = 0
Next == /\ adds < MaxAdds
        /\ \E T \in 1..MaxT : \E lasts \in [1..T -> {0, 1}] :
             LET d == D(k, lasts)
                 W == Loop(d, n, 1)
                 p == PutRing(ring, idx, full, W)
             IN /\ s' = Put([max |-> cap, init |-> 0], s, Windows(d, n, 2))
                /\ ring' = p[1] /\ idx' = p[2] /\ full' = p[3]
                /\ k' = k + T
        /\ adds' = adds + 1 /\ UNCHANGED <<cap, n>>
Abs == IF full THEN SubSeq(ring, idx + 1, cap) \o SubSeq(ring, 1, idx) ELSE ring
Refines == Abs = s.q
Bounded == Len(s.q) <= cap /\ (full => Len(s.q) = cap)
NoCross == \A j \in 1..Len(s.q) : s.q[j][4] - s.q[j][1] = 10 * (n - 1) + 1
=============================================================================
