---------------------------------- MODULE MCStats ----------------------------------
(* Design: after any sequence of single updates the standardisation holds the mean and    *)
(* the sum of squared deviations of all values (the first counted as zero, plus one), the  *)
(* window the mean of the last values, and bounded observations map onto [-1, 1].          *)
EXTENDS Stats, TLC
CONSTANTS Vals, MaxN, Ws
VARIABLES h, s, w, b
ValsD == {-2000000, 0, 500000, 3000000}
Cs == [k |-> "std", d |-> 1, alpha |-> 0, clip |-> 2 * One]
Cw(v) == [k |-> "win", d |-> 1, w |-> v, init |-> <<>>]
Cm == [k |-> "minmax", d |-> 1, fin |-> <<1>>, lo |-> <<-2000000>>, hi |-> <<3000000>>, clip |-> 2 * One]
Init == h = <<>> /\ s = Start(Cs) /\ w \in Ws /\ b = Start(Cw(w))
Next == Len(h) < MaxN /\ \E v \in Vals : h' = Append(h, v) /\ s' = Upd(Cs, s, <<<<v>>>>) /\ b' = Upd(Cw(w), b, <<<<v>>>>) /\ UNCHANGED w
All == <<0>> \o h
MeanOK == Near(s.m[1], Rd(Sum(All), Len(All)), 10)
DevOK == Near(s.s[1], One + SumTo([i \in 1..Len(All) |-> Mp(All[i] - s.m[1], All[i] - s.m[1])], Len(All)), 60)
WinOK == LET q == Last(All, w) IN Near(Cur(Cw(w), b)[1], Rd(Sum(q), Len(q)), 2)
Unit == \A v \in Vals : Abs(Out(Cm, s, <<v>>, 1)) <= One /\ Abs(Norm(Cs, s, <<v>>, 1)) <= 2 * One
=============================================================================
