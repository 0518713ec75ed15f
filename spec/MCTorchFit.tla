-------------------------------- MODULE MCTorchFit --------------------------------
(* Design: with any order of the samples every epoch uses each training sample once, in    *)
(* batches of the given size; validation samples never train; the fit stops, exactly when   *)
(* the epochs are over or the patience is; full batches with a small rate descend.          *)
EXTENDS TorchFit
CONSTANTS Bss, Nes, Epss, Pats, Nts, Lr
VARIABLES c, s, n, seen, lo
X0 == <<<<1000000>>, <<500000>>, <<-750000>>>>
Y0 == <<<<<<1000000>>, <<-250000>>, <<0>>>>>>
Init == \E bs \in Bss, ne \in Nes, ep \in Epss, pat \in Pats, nt \in Nts :
          /\ ne # -1 \/ ep # -1
          /\ c = [q |-> 0, lr |-> Lr, bs |-> bs, re |-> 0, drop |-> 0, w0 |-> <<<<0>>>>, w |-> <<<<<<-1000000>>>>>>]
          /\ s = Begin(c, Start(c), [X |-> X0, A |-> <<0, 0, 0>>, Y |-> Y0, wt |-> <<>>, nt |-> nt, ne |-> ne, eps |-> ep, pat |-> pat, ms |-> <<1>>])
          /\ n = 0 /\ seen = {} /\ lo = Inf
NesV == {-1, 1, 3}
EpsV == {-1, 50000}
NesW == {-1, 1, 2, 4}
EpsW == {-1, 60000, 200000}
F == s.f[1]
Perms(S) == {q \in [1..Cardinality(S) -> S] : Cardinality({q[k] : k \in 1..Cardinality(S)}) = Cardinality(S)}
Go(ids) == LET r == Fwd(c, s, [m |-> 1, ids |-> ids, tr |-> 1]) IN
           /\ r.bad = {} /\ s' = r.s
           /\ n' = n + 1
           /\ seen' = IF F.ph = "train" THEN (IF F.nb = 0 THEN {ids[k] : k \in 1..Len(ids)} ELSE seen \cup {ids[k] : k \in 1..Len(ids)}) ELSE seen
           /\ lo' = IF r.s.f[1].ep > F.ep THEN r.s.f[1].last ELSE lo
Size == IF c.bs = 0 THEN Cardinality(F.todo) ELSE Min2(c.bs, Cardinality(F.todo))
Next == /\ UNCHANGED c
        /\ \/ F.ph = "train" /\ \E S \in SUBSET F.todo : Cardinality(S) = Size /\ \E q \in Perms(S) : (\A i \in 1..(Size - 1) : q[i] < q[i + 1]) /\ Go(<<>> \o q)
           \/ F.ph = "val" /\ LET S == Val(s.r) IN \E q \in Perms(S) : (\A i \in 1..(Cardinality(S) - 1) : q[i] < q[i + 1]) /\ Go(<<>> \o q)
Covers == (F.nb = 0 /\ F.ep > 0) => seen = Train(s.r)
Stops == F.ep <= 12 /\ (s.r.ne # -1 => F.ep <= s.r.ne)
OnTime == F.ph # "lost" => (F.ph = "done" <=> ((s.r.ne # -1 /\ F.ep >= s.r.ne) \/ (s.r.eps # -1 /\ F.pc >= s.r.pat)))
Descends == (c.bs = 0 /\ F.ep > 1) => F.last <= lo
Ahead == [][(c.bs = 0 /\ F.ep > 0 /\ s'.f[1].ep > F.ep) => s'.f[1].last <= F.last + 2]_<<c, s, n, seen, lo>>
Finishes == <>(F.ph \in {"done", "lost"})
Spec == Init /\ [][Next]_<<c, s, n, seen, lo>> /\ WF_<<c, s, n, seen, lo>>(Next)
=============================================================================
