---------------------------------- MODULE DQN ----------------------------------
(* Value-based deep reinforcement learning from a replay memory, with the function *)
(* approximator left open: the online models are tables whose content after each   *)
(* fit is arbitrary (it is observed), so that the specification speaks only about   *)
(* what the algorithm has to do: when it fits, on which samples, towards which      *)
(* targets, and which frozen copy of the models the targets are computed from.      *)
(*                                                                                  *)
(* A state is an unique number; models see it modulo c.nS.  Values are scaled by V. *)
(* c.alg: dqn double maxmin averaged cat quant rainbow                               *)
(* c.nS nA nM (online models)  nT (averaged copies)  c.g (discount, 8ths)  c.n       *)
(* c.freq c.init c.cap c.clip c.prio c.bs ; c.vmin c.d c.nAt (atoms or quantiles)    *)
EXTENDS Integers, Sequences, FiniteSets

Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
V == 1024
Tol == 2
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= Tol
MaxS(X) == CHOOSE x \in X : \A y \in X : x >= y
MinS(X) == CHOOSE x \in X : \A y \in X : x <= y
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
Clip(x, lo, hi) == Max2(lo, Min2(hi, x))
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)

\* memory: sequence of [id, a, r (scaled by V), s2, ab], the newest last
\* snaps: the frozen copies used for the targets, the newest last
Start(c) == [mem |-> <<>>, cnt |-> 0, w |-> <<>>, snaps |-> <<>>]

Idx(c, id) == (id % c.nS) + 1

\* ------------------------------------------------------------------ memory
\* n-step sample starting at position i of the fitted transitions x; rewards in halves
RewardAt(c, x, i) == SumTo([k \in 1..c.n |-> ((V \div 2) * x[i + k - 1].r * Pow(c.g, k - 1)) \div Pow(8, k - 1)], c.n)
Valid(c, x, i) == i + c.n - 1 <= Len(x) /\ \A k \in i..(i + c.n - 2) : x[k].last = 0
Sample(c, x, i) == [id |-> x[i].id, a |-> x[i].a, r |-> RewardAt(c, x, i), s2 |-> x[i + c.n - 1].s2, ab |-> x[i + c.n - 1].ab]
RECURSIVE Samples(_, _, _)
Samples(c, x, i) == IF i > Len(x) THEN <<>>
                    ELSE (IF Valid(c, x, i) THEN <<Sample(c, x, i)>> ELSE <<>>) \o Samples(c, x, i + 1)
Newest(m, k) == IF Len(m) <= k THEN m ELSE SubSeq(m, Len(m) - k + 1, Len(m))
Mem(c, s, e) == Newest(s.mem \o Samples(c, e.tr, 1), c.cap)

\* ------------------------------------------------------------------ values
\* w: sequence of models; a model maps state index, action to a value, or to a distribution
Values(c, w, z) ==
    CASE c.alg \in {"dqn", "double"} -> w[1][z]
      [] c.alg = "maxmin"   -> [a \in 1..c.nA |-> MinS({w[k][z][a] : k \in 1..c.nM})]
      [] c.alg = "averaged" -> w[1][z]
      [] c.alg = "quant"    -> [a \in 1..c.nA |-> SumTo(w[1][z][a], c.nAt)]
      [] c.alg \in {"cat", "rainbow"} -> [a \in 1..c.nA |-> SumTo([k \in 1..c.nAt |-> w[1][z][a][k] * (c.vmin + (k - 1) * c.d)], c.nAt)]
Best(row) == {a \in 1..Len(row) : \A b \in 1..Len(row) : row[b] <= row[a]}

Disc(c, x) == (x * Pow(c.g, c.n)) \div Pow(8, c.n)
Reward(c, m) == IF c.clip = 1 THEN Clip(m.r, -V, V) ELSE m.r

\* the values bootstrapped from the next state (a set: ties between greedy actions)
Boot(c, s, m) ==
    LET z == Idx(c, m.s2)
        cur == s.snaps[Len(s.snaps)]
    IN IF m.ab = 1 THEN {0}
       ELSE CASE c.alg = "double"   -> {cur[1][z][a] : a \in Best(s.w[1][z])}
              [] c.alg = "averaged" -> LET k == Len(s.snaps)
                                       IN {MaxS({SumTo([j \in 1..k |-> s.snaps[j][1][z][a]], k) \div k : a \in 1..c.nA})}
              [] OTHER              -> {MaxS({Values(c, cur, z)[a] : a \in 1..c.nA})}

\* ------------------------------------------------------------------ distributions
\* p in 8ths; position of atom k after the Bellman update, in units of V atoms
Pos(c, m, k) == LET g == IF m.ab = 1 THEN 0 ELSE Disc(c, V * (c.vmin + (k - 1) * c.d))
                    x == Clip(Reward(c, m) + g, V * c.vmin, V * (c.vmin + (c.nAt - 1) * c.d))
                IN (x - V * c.vmin) \div c.d
Kernel(c, m, k, j) == Max2(0, V - Abs(Pos(c, m, k) - V * (j - 1)))
Project(c, m, p) == [j \in 1..c.nAt |-> SumTo([k \in 1..c.nAt |-> p[k] * Kernel(c, m, k, j)], c.nAt) \div 8]
\* distributions that may be the target of a sample
Targets(c, s, m) ==
    LET z == Idx(c, m.s2)
        cur == s.snaps[Len(s.snaps)]
    IN CASE c.alg = "quant"   -> {[k \in 1..c.nAt |-> Reward(c, m) + (IF m.ab = 1 THEN 0 ELSE Disc(c, cur[1][z][a][k]))]
                                  : a \in Best(Values(c, cur, z))}
         [] c.alg = "cat"     -> {Project(c, m, cur[1][z][a]) : a \in Best(Values(c, cur, z))}
         [] c.alg = "rainbow" -> {Project(c, m, cur[1][z][a]) : a \in Best(Values(c, s.w, z))}
         [] OTHER             -> {<<Reward(c, m) + Disc(c, x)>> : x \in Boot(c, s, m)}

\* ------------------------------------------------------------------ one fit of the agent
NearSeq(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k])
\* the sample of the memory that fit item i of f used, if any
Used(mem, f, i) == {k \in 1..Len(mem) : mem[k].id = f.ids[i]}
Error(c, s, f, i) == f.tg[i][1] - Values(c, s.w, Idx(c, f.ids[i]))[f.acts[i]]
FitBad(c, s, mem, f) ==
       Chk(Len(f.ids) = c.bs /\ Len(f.acts) = c.bs /\ Len(f.tg) = c.bs, "BatchSize")
  \cup Chk(\A i \in 1..Len(f.ids) : Used(mem, f, i) # {}, "SampleFromMemory")
  \cup Chk(\A i \in 1..Len(f.ids) : \A k \in Used(mem, f, i) : f.acts[i] = mem[k].a, "ActionOfSample")
  \cup Chk(\A i \in 1..Len(f.ids) : \A k \in Used(mem, f, i) : \E x \in Targets(c, s, mem[k]) : NearSeq(f.tg[i], x), "Target")
  \cup (IF c.prio = 0 THEN Chk(f.nup = 0 /\ f.iw = <<>>, "NoPriorities")
        ELSE Chk(f.nup = 1, "PrioritiesUpdatedOnce")
             \cup Chk(f.iw = f.giw /\ f.uidx = f.gidx, "WeightsAndIndexesOfTheBatch")
             \cup Chk(c.alg = "rainbow" \/ (Len(f.err) = c.bs /\ \A i \in 1..c.bs : Near(f.err[i], Error(c, s, f, i))), "PriorityIsTheError"))
  \cup Chk(f.m \in 1..c.nM, "ModelFitted")

Fit(c, s, e) ==
    LET mem == Mem(c, s, e)
        ready == Len(mem) > c.init
        dist == c.alg \in {"cat", "quant", "rainbow"}
        cnt == IF dist /\ ~ready THEN s.cnt ELSE s.cnt + 1
        due == cnt # s.cnt /\ cnt % c.freq = 0
        keep == IF c.alg = "averaged" THEN c.nT ELSE 1
        bad == Chk((Len(e.fits) = 1) = ready /\ Len(e.fits) <= 1, "FitsOncePerCallWhenReady")
               \cup (IF e.fits = <<>> \/ ~ready THEN {} ELSE FitBad(c, s, mem, e.fits[1]))
               \cup Chk(\A k \in 1..c.nM : (e.fits = <<>> \/ e.fits[1].m # k) => e.w[k] = s.w[k], "OnlyTheFittedModelChanges")
               \cup Chk(e.fits = <<>> \/ e.w[e.fits[1].m] = e.new, "FittedModelKept")
               \cup Chk(c.prio = 0 \/ e.addp = 1, "NewSamplesHaveMaximalPriority")
    IN R([s EXCEPT !.mem = mem, !.cnt = cnt, !.w = e.w,
                   !.snaps = IF due THEN Newest(Append(@, e.w), keep) ELSE @], bad)

Apply(c, s, e) ==
    CASE e.op = "init" -> R([s EXCEPT !.w = e.w, !.snaps = <<e.w>>], {})
      [] e.op = "fit"  -> Fit(c, s, e)
      [] e.op = "same" -> R(s, Chk(e.w = s.w, "ReloadKeepsTheModels"))
      [] e.op = "act"  -> R(s, Chk(e.a \in Best(Values(c, s.w, Idx(c, e.s))), "GreedyOnTheOnlineModels"))
      [] e.op = "exc"  -> R(s, {"UnexpectedException"})
      [] e.op = "end"  -> R(s, {})
=============================================================================
