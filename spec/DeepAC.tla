-------------------------------- MODULE DeepAC --------------------------------
(* Off-policy actor-critic learning (DDPG, TD3, SAC).  Critics and actors are small  *)
(* tables (linear in the action) supplied by the user together with the optimizers:  *)
(* what they become after an optimizer step is arbitrary and observed.  Specified:   *)
(* when each of them is updated, on which samples, towards which target, with which  *)
(* gradient, and how the slow target copies follow.                                  *)
(* c.alg: ddpg td3 sac; c.nS nD nM; c.g (8ths) c.tau (8ths) c.delay c.warm c.init    *)
(* c.cap c.bs; c.lo c.hi (bounds of the actions, scaled); c.ns c.nc (smoothing noise)*)
(* Numbers are scaled by V.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
V == 4096
Tol == 40
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= Tol
MinS(X) == CHOOSE x \in X : \A y \in X : x <= y
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
Clip(x, lo, hi) == Max2(lo, Min2(hi, x))
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

\* mem: samples [id, r, s2, ab, act], newest last; w/tw critics, u/tu actor; cnt fits done
\* alpha: bounds of the entropy coefficient; up: actor updates so far; sg: signs of the smoothing noise seen
Start(c) == [mem |-> <<>>, cnt |-> 0, w |-> <<>>, tw |-> <<>>, u |-> <<>>, tu |-> <<>>, up |-> 0, dir |-> 0, neg |-> 0, pos |-> 0, sat |-> 0]
Idx(c, id) == (id % c.nS) + 1
Newest(m, k) == IF Len(m) <= k THEN m ELSE SubSeq(m, Len(m) - k + 1, Len(m))
Mem(c, s, e) == Newest(s.mem \o e.tr, c.cap)

Q(c, t, z, a) == t[z][1] + SumTo([d \in 1..c.nD |-> (t[z][d + 1] * a[d]) \div V], c.nD)
MinQ(c, T, z, a) == MinS({Q(c, T[k], z, a) : k \in 1..c.nM})
Soft(c, T, W) == [k \in 1..Len(T) |-> [z \in 1..Len(T[k]) |-> [d \in 1..Len(T[k][z]) |->
                     (c.tau * W[k][z][d] + (8 - c.tau) * T[k][z][d]) \div 8]]]

Of(mem, id) == mem[CHOOSE k \in 1..Len(mem) : mem[k].id = id]
Known(mem, id) == \E k \in 1..Len(mem) : mem[k].id = id

\* the action evaluated in the next state
NextAct(c, s, z, a) ==
    CASE c.alg = "ddpg" -> \A d \in 1..c.nD : Near(a[d], s.tu[1][z][d])
      [] c.alg = "td3"  -> \A d \in 1..c.nD :
                             /\ a[d] >= c.lo[d] - 2 /\ a[d] <= c.hi[d] + 2
                             /\ a[d] >= Clip(s.tu[1][z][d] - c.nc, c.lo[d], c.hi[d]) - Tol
                             /\ a[d] <= Clip(s.tu[1][z][d] + c.nc, c.lo[d], c.hi[d]) + Tol
                             /\ (c.ns = 0 => Near(a[d], Clip(s.tu[1][z][d], c.lo[d], c.hi[d])))
      [] c.alg = "sac"  -> \A d \in 1..c.nD : a[d] >= c.lo[d] - 2 /\ a[d] <= c.hi[d] + 2

\* alpha (scaled by V) the targets of a batch were computed with, when it is known exactly
Target(c, s, m, a, lp, al) ==
    LET z == Idx(c, m.s2)
        q == MinQ(c, s.tw, z, a) - (IF c.alg = "sac" THEN (al * lp) \div V ELSE 0)
    IN m.r + (IF m.ab = 1 THEN 0 ELSE (c.g * q) \div 8)

\* slopes of the critic the actor follows: gradient of -mean Q with respect to the table of the actor
Grad(c, w, ids, z, d) == -(SumTo([i \in 1..Len(ids) |-> IF Idx(c, ids[i]) = z THEN w[1][z][d + 1] ELSE 0], Len(ids)) \div Len(ids))

Fit(c, s, e) ==
    LET mem == Mem(c, s, e)
        ready == Len(mem) > c.init
        ids == e.fits[1].ids
        ok == Len(e.fits) = c.nM /\ ready /\ Len(ids) = c.bs /\ (\A i \in 1..Len(ids) : Known(mem, ids[i]))
              /\ Len(e.nx.ids) = c.bs /\ Len(e.nx.acts) = c.bs
        actor == IF c.alg = "sac" THEN ready /\ Len(mem) > c.warm ELSE ready /\ s.cnt % c.delay = 0
        \* entropy coefficient: exactly one before the first update of the actor
        first == s.up = 0 /\ actor
        al == IF c.alg # "sac" THEN {V} ELSE
              IF s.up = 0 /\ ~actor THEN {V}
              ELSE IF c.lra = 0 THEN {V}
              ELSE IF first /\ e.dir # 0 THEN (IF e.dir > 0 THEN {(V * c.eplus) \div 1024} ELSE {(V * c.eminus) \div 1024})
              \* later on: the same positive coefficient for the whole batch (a witness given by the recorder)
              ELSE IF e.al > 0 THEN {e.al} ELSE {}
        bad1 == Chk(Len(e.fits) = (IF ready THEN c.nM ELSE 0), "EachCriticFittedOncePerCallWhenReady")
        bad2 == IF ~ready \/ Len(e.fits) # c.nM THEN {}
                ELSE   Chk(\A k \in 1..c.nM : e.fits[k].m = k /\ e.fits[k].ids = ids, "SameBatchForAllCritics")
                  \cup Chk(Len(ids) = c.bs, "BatchSize")
                  \cup Chk(\A i \in 1..Len(ids) : Known(mem, ids[i]), "SampleFromMemory")
        bad3 == IF ~ok THEN Chk(Len(e.fits) = 0 \/ ok, "NextStateEvaluated")
                ELSE   Chk(\A k \in 1..c.nM : \A i \in 1..c.bs : \A d \in 1..c.nD : Near(e.fits[k].acts[i][d], Of(mem, ids[i]).act[d]), "ActionOfSample")
                  \cup Chk(e.nx.same = 1 /\ \A i \in 1..c.bs : e.nx.ids[i] = Of(mem, ids[i]).s2, "NextStateOfSample")
                  \cup Chk(\A i \in 1..c.bs : NextAct(c, s, Idx(c, e.nx.ids[i]), e.nx.acts[i]), "NextAction")
                  \cup Chk(\A k \in 1..c.nM : \A i \in 1..c.bs :
                              al = {} \/ \E x \in al : Near(e.fits[k].y[i], Target(c, s, Of(mem, ids[i]), e.nx.acts[i], e.nx.lp[i], x)), "Target")
        bad4 == Chk(e.steps = (IF actor THEN 1 ELSE 0), "ActorUpdatedWhenDue")
                \cup Chk(e.clips = (IF actor /\ c.clipg = 1 THEN 1 ELSE 0), "GradientClippedOncePerActorUpdate")
                \cup (IF c.alg = "sac" \/ ~actor \/ e.steps # 1 \/ ~ok THEN {}
                      ELSE Chk(\A z \in 1..c.nS : \A d \in 1..c.nD : Near(e.grad[z][d], Grad(c, e.w, ids, z, d)), "ActorGradient"))
        bad5 == Chk(e.fits # <<>> \/ (e.w = s.w), "CriticsChangeOnlyByFits")
                \cup Chk(e.steps # 0 \/ e.u = s.u, "ActorChangesOnlyByUpdates")
                \cup Chk((e.fits = <<>> \/ e.wn = e.w) /\ (e.steps = 0 \/ e.un = e.u), "UpdatedModelsAreKept")
        noisy == c.alg = "td3" /\ c.ns > 0 /\ ok
        D(i, d) == e.nx.acts[i][d] - s.tu[1][Idx(c, e.nx.ids[i])][d]
        Far(i, d) == s.tu[1][Idx(c, e.nx.ids[i])][d] > c.lo[d] + c.nc /\ s.tu[1][Idx(c, e.nx.ids[i])][d] < c.hi[d] - c.nc
        Cnt(P(_, _)) == Cardinality({p \in (1..c.bs) \X (1..c.nD) : Far(p[1], p[2]) /\ P(p[1], p[2])})
    IN R([s EXCEPT !.mem = mem, !.w = e.w, !.u = e.u,
                   !.cnt = IF ready THEN @ + 1 ELSE @, !.up = IF actor THEN @ + 1 ELSE @,
                   !.tw = IF ready THEN Soft(c, @, e.w) ELSE @,
                   !.tu = IF ready /\ c.alg # "sac" THEN Soft(c, @, e.u) ELSE @,
                   !.neg = IF noisy THEN @ + Cnt(LAMBDA i, d : D(i, d) < -Tol) ELSE @,
                   !.pos = IF noisy THEN @ + Cnt(LAMBDA i, d : D(i, d) > Tol) ELSE @,
                   !.sat = IF noisy THEN @ + Cnt(LAMBDA i, d : Abs(D(i, d)) > c.nc - Tol) ELSE @],
         bad1 \cup bad2 \cup bad3 \cup bad4 \cup bad5)

\* smoothing noise of large standard deviation: both signs, often at the clip
End(c, s) == Chk(s.neg + s.pos < 40 \/ (s.neg > 0 /\ s.pos > 0), "SmoothingNoiseHasBothSigns")
             \cup Chk(s.neg + s.pos < 40 \/ c.ns < 8 * c.nc \/ s.sat > (s.neg + s.pos) \div 2, "SmoothingNoiseReachesItsClip")

Apply(c, s, e) ==
    CASE e.op = "init" -> R([s EXCEPT !.w = e.w, !.tw = e.w, !.u = e.u, !.tu = e.u], {})
      [] e.op = "fit"  -> Fit(c, s, e)
      [] e.op = "exc"  -> R(s, {"UnexpectedException"})
      [] e.op = "end"  -> R(s, End(c, s))
=============================================================================
