--------------------------------- MODULE MCApprox ---------------------------------
(* Design: weights survive the round trip; the derivative is consistent with the          *)
(* prediction of a linear model; a CMAC fitted on one sample with rate one predicts its     *)
(* target and converges for repeated samples; combinations are ordered; a table keeps the   *)
(* last value of every cell and nothing else changes.                                      *)
EXTENDS Approx, TLC
CONSTANTS Ws, Xs, Kinds, Depth
VARIABLES c, s, hist
H == 500000
Tl == <<[lo |-> <<-16>>, hi |-> <<16>>, n |-> <<2>>, dims |-> <<>>], [lo |-> <<-8>>, hi |-> <<24>>, n |-> <<2>>, dims |-> <<>>]>>
Cfg(k) == CASE k = "generic" -> [k |-> k, phi |-> "aff", cmac |-> 0, T |-> <<>>, M |-> <<<<<<<<0, 0>>, <<0, 0>>>>>>>>]
            [] k = "q" -> [k |-> k, phi |-> "aff", cmac |-> 0, T |-> <<>>, M |-> <<<<<<<<0, 0>>, <<0, 0>>>>>>>>]
            [] k = "action" -> [k |-> k, phi |-> "aff", cmac |-> 0, T |-> <<>>, M |-> <<<<<<<<0, 0>>>>>>, <<<<<<0, 0>>>>>>>>]
            [] k = "cmac" -> [k |-> "generic", phi |-> "tiles", cmac |-> 1, T |-> Tl, M |-> <<<<<<<<0, 0, 0, 0>>>>>>>>]
Init == c \in {Cfg(k) : k \in Kinds} /\ s = Start(c) /\ hist = <<>>
Set(w) == s' = Setw(c, s, 1, w) /\ hist' = <<"set", w>>
Fit(x, y) == /\ c.cmac = 1
             /\ LET e == [X |-> <<<<x>>>>, A |-> <<0>>, Y |-> <<<<y>>>>, alpha |-> One, idx |-> <<>>]
                IN s' = [s EXCEPT !.M = <<<<CmacFit(c, s.M[1][1], e, 1)>>>>]
             /\ hist' = <<"fit", x, y>>
Next == /\ UNCHANGED c
        /\ \/ \E w \in [1..4 -> Ws] : c.cmac = 0 /\ Set(<<>> \o w)
           \/ \E x \in Xs, y \in Ws : Fit(x, y)
Bound == TLCGet("level") <= Depth /\ \A o \in 1..Len(s.M[1][1]) : \A k \in 1..Len(s.M[1][1][o]) : Abs(s.M[1][1][o][k]) < 8000000
RoundTrip == (hist # <<>> /\ hist[1] = "set") => Flat(c, s, 1) = hist[2]
Consistent == \A x \in Xs :
    LET v == Vals(c, s, <<x>>, -1, <<0>>)
        w == Flat(c, s, 1)
    IN IF c.k = "action" THEN \A a \in 0..1 : Near(Dot(w, DiffOf(c, s, <<x>>, a)[1]), v[a + 1][1], 4)
       ELSE \A o \in 1..Len(v) : Near(Dot(w, DiffOf(c, s, <<x>>, -1)[o]), v[o][1], 4)
Selects == c.k \in {"q", "action"} => \A x \in Xs, a \in 0..1 : Vals(c, s, <<x>>, a, <<0>>)[1] = Vals(c, s, <<x>>, -1, <<0>>)[a + 1]
Learns == (hist # <<>> /\ hist[1] = "fit") =>
            LET p == Phi(c, <<hist[2]>>) IN Sum(p) = 0 \/ Near(Out(s.M[1][1], p)[1], hist[3], 4)
Ordered == \A q \in [1..2 -> Ws] : LET r == <<>> \o q IN
            Comb("min", r) <= Comb("mean", r) + 1 /\ Comb("mean", r) <= Comb("max", r) + 1 /\ Spread(r, 0) >= 0 /\ Near(Comb("sum", r), 2 * Comb("mean", r), 1)
=============================================================================
