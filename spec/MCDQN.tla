-------------------------------- MODULE MCDQN --------------------------------
(* Design: the fit that the specification itself describes is accepted and any    *)
(* perturbed one is not; targets always come from the copy taken at the last       *)
(* multiple of the update frequency (the last nT copies for the averaged           *)
(* algorithm); the projection of a distribution conserves the mass and, when       *)
(* nothing is clipped, the mean.                                                   *)
EXTENDS DQN, TLC
CONSTANTS Depth, Algs, Freqs
VARIABLES c, st, n, hist
W == {<<<<0, V>>, <<V, -V>>>>, <<<<2 * V, V>>, <<0, V>>>>}
Models(k) == [1..k -> W]
Cfg(al, f) == [alg |-> al, nS |-> 2, nA |-> 2, nM |-> IF al = "maxmin" THEN 2 ELSE 1, nT |-> 2, g |-> 4, n |-> 1, freq |-> f,
               init |-> 1, cap |-> 2, clip |-> 0, prio |-> 0, bs |-> 1, vmin |-> -1, d |-> 1, nAt |-> 3]
Init == c \in {Cfg(al, f) : al \in Algs, f \in Freqs} /\ n = 0
        /\ \E w \in Models(c.nM) : st = Apply(c, Start(c), [op |-> "init", w |-> w]).s /\ hist = <<w>>
Tr == {[id |-> n + 1, a |-> a, r |-> r, s2 |-> s2, ab |-> ab, last |-> 1] : a \in {1}, r \in {2}, s2 \in {0, 1}, ab \in {0, 1}}
DoFit == \E t \in Tr, m \in 1..c.nM, nw \in W :
         LET e0 == [op |-> "fit", tr |-> <<t>>, addp |-> 0, new |-> nw]
             mem == Mem(c, st, e0)
             ready == Len(mem) > c.init
         IN IF ~ready
            THEN LET e == e0 @@ [fits |-> <<>>, w |-> st.w]
                     r == Apply(c, st, e)
                 IN Assert(r.bad = {}, "own warm up rejected") /\ st' = r.s /\ hist' = Append(hist, r.s.w)
            ELSE \E k \in 1..Len(mem) : \E x \in Targets(c, st, mem[k]) :
                   LET f == [m |-> m, ids |-> <<mem[k].id>>, acts |-> <<mem[k].a>>, tg |-> <<x>>, iw |-> <<>>, nup |-> 0,
                             err |-> <<>>, uidx |-> <<>>, gidx |-> <<>>, giw |-> <<>>]
                       e == e0 @@ [fits |-> <<f>>, w |-> [st.w EXCEPT ![m] = nw]]
                       e2 == [e EXCEPT !.fits[1].tg = <<<<x[1] + V \div 4>>>>]
                       e3 == [e EXCEPT !.fits = <<>>]
                       r == Apply(c, st, e)
                   IN /\ Assert(r.bad = {}, <<"own fit rejected", e, r.bad>>)
                      /\ Assert(\/ \E y \in Targets(c, st, mem[k]) : Near(y[1], x[1] + V \div 4)
                                \/ "Target" \in Apply(c, st, e2).bad, "wrong target accepted")
                      /\ Assert("FitsOncePerCallWhenReady" \in Apply(c, st, e3).bad, "missing fit accepted")
                      /\ st' = r.s /\ hist' = Append(hist, r.s.w)
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED c /\ DoFit
\* hist[k + 1] are the models after k fits
Copy == LET k == (n \div c.freq) * c.freq IN st.snaps[Len(st.snaps)] = hist[k + 1]
Copies == LET k == Len(st.snaps) IN
            /\ k = (IF c.alg = "averaged" THEN Min2(c.nT, 1 + n \div c.freq) ELSE 1)
            /\ \A j \in 1..k : st.snaps[j] = hist[((n \div c.freq) - (k - j)) * c.freq + 1]
MemOK == Len(st.mem) = Min2(n, c.cap)
\* the projection of distributions
P == {<<8, 0, 0>>, <<0, 8, 0>>, <<0, 0, 8>>, <<3, 4, 1>>, <<1, 0, 7>>, <<2, 6, 0>>}
CatCfg(g, d) == [Cfg("cat", 1) EXCEPT !.g = g, !.d = d]
Mass(q) == SumTo(q, 3)
Mean(cc, q) == SumTo([j \in 1..3 |-> q[j] * (cc.vmin + (j - 1) * cc.d)], 3)
ASSUME \A p \in P, g \in {4, 6, 8}, d \in {1, 2}, r \in -8..8, ab \in {0, 1} :
         LET cc == CatCfg(g, d)
             m == [id |-> 1, a |-> 1, r |-> (V \div 4) * r, s2 |-> 0, ab |-> ab]
             q == Project(cc, m, p)
             x(k) == Clip(m.r + (IF ab = 1 THEN 0 ELSE Disc(cc, V * (cc.vmin + (k - 1) * d))), V * cc.vmin, V * (cc.vmin + 2 * d))
             mean == SumTo([k \in 1..3 |-> p[k] * x(k)], 3) \div 8
         IN /\ \A j \in 1..3 : q[j] >= 0
            /\ Mass(q) \in (V - 3)..V
            /\ Mean(cc, q) - mean \in (-6 * d)..(6 * d)
=============================================================================
