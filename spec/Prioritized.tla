----------------------------- MODULE Prioritized -----------------------------
(* Prioritised replay: a bounded FIFO of n-step windows where each entry carries  *)
(* a priority.  Entries are sampled proportionally to the priorities, importance  *)
(* weights are (N p / total)^-beta normalised to the largest of the batch, and an  *)
(* update through a handle changes exactly the entry the handle was returned for.  *)
(* Priorities on the grid 1/4.                                                     *)
EXTENDS Replay
RECURSIVE SumP(_)
SumP(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + SumP(Tail(q))
MaxP(q) == CHOOSE m \in {q[k][2] : k \in 1..Len(q)} : \A k \in 1..Len(q) : q[k][2] <= m
PStart(c) == <<>>                         \* sequence of <<transition, priority>>, oldest first
RECURSIVE PWin(_, _, _, _, _)
PWin(D, P, n, gd, i) == IF i > Len(D) THEN <<>>
    ELSE (IF Admissible(D, i, n) THEN <<<<Window(D, i, n, gd), P[i]>>>> ELSE <<>>) \o PWin(D, P, n, gd, i + 1)
PObs(c, q, e) == Chk(e.init = (IF Len(q) > c.init THEN 1 ELSE 0), "InitializedThreshold")
                 \cup Chk(e.maxp = (IF Len(q) > c.init THEN MaxP(q) ELSE 4), "MaxPriority")
                 \cup (IF c.raw = 1 THEN Chk(e.total = SumP(q), "TotalIsSumOfPriorities") \cup Chk(e.size = Len(q), "SizeIsBounded")
                                         \cup Chk(Len(q) = 0 \/ e.rawmax = MaxP(q), "MaxPriority") ELSE {})
\* state ids are unique: an entry is identified by its first component
Idx(q, id) == {k \in 1..Len(q) : q[k][1][1] = id}
Abs(x) == IF x < 0 THEN -x ELSE x
\* |cnt - n p / T| <= 6 sd + 3, in integers; (cnt T - n p)^2 <= 36 n p (T - p) + slack, avoiding overflow by a coarse root
RECURSIVE Isqrt(_, _)
Isqrt(x, r) == IF (r + 1) * (r + 1) > x THEN r ELSE Isqrt(x, r + 1)
Fair(n, cnt, p, T) == LET mean == (n * p) \div T
                          var == (n * p * (T - p)) \div (T * T)
                          sd == Isqrt(var, 0) + 1
                      IN Abs(cnt - mean) <= 6 * sd + 2
Update(q, ups) == [k \in 1..Len(q) |->
    LET hits == {j \in 1..Len(ups) : ups[j][1] = q[k][1][1]} IN
    IF hits = {} THEN q[k] ELSE <<q[k][1], ups[CHOOSE j \in hits : \A m \in hits : m <= j][2]>>]
BMin(e) == CHOOSE m \in {e.smp[k][2] : k \in 1..Len(e.smp)} : \A k \in 1..Len(e.smp) : m <= e.smp[k][2]
\* weight of an entry of priority p when the smallest sampled priority is m, on the grid 1/1000
WOk(beta, w, p, m) ==
    CASE beta = 0 -> Abs(w - 1000) <= 1
      [] beta = 2 -> Abs(w * p - 1000 * m) <= p + 1                       \* beta = 1
      [] beta = 1 -> Abs(((w * w) \div 1000) * p - 1000 * m) <= 4 * p + 4 \* beta = 1/2
PApply(c, q, e) ==
    CASE e.op = "add" -> LET q2 == LastN(q \o PWin(e.smps, e.p, e.n, e.gd, 1), c.max)
                         IN R(q2, PObs(c, q2, e) \cup Chk(e.intact = 1, "CallerDataUntouched"))
      [] e.op = "get" -> \* e.smp: distinct <<transition, priority reported by TLC's own state, count, weight>>
            LET ids == {e.smp[k][1] : k \in 1..Len(e.smp)}
                T == SumP(q)
            IN R(q, PObs(c, q, e)
               \cup Chk(\A x \in ids : \E k \in 1..Len(q) : q[k][1] = x, "SamplesAreStored")
               \cup (IF \A x \in ids : \E k \in 1..Len(q) : q[k][1] = x THEN
                      LET pr(x) == q[CHOOSE k \in 1..Len(q) : q[k][1] = x][2]
                          m == CHOOSE v \in {pr(x) : x \in ids} : \A x \in ids : v <= pr(x)
                      IN Chk(\A k \in 1..Len(e.smp) : WOk(c.beta, e.smp[k][3], pr(e.smp[k][1]), m), "ImportanceWeights")
                         \cup Chk(e.single = 1, "WeightDependsOnEntryOnly")
                         \cup (IF e.big = 1 THEN Chk(\A k \in 1..Len(q) :
                              LET hit == {j \in 1..Len(e.smp) : e.smp[j][1] = q[k][1]}
                                  cnt == IF hit = {} THEN 0 ELSE e.smp[CHOOSE j \in hit : TRUE][2]
                              IN Fair(e.asked, cnt, q[k][2], T), "ProportionalSampling") ELSE {})
                    ELSE {})
               \cup Chk(e.n = e.asked, "RequestedBatchSize"))
      [] e.op = "update" -> LET q2 == Update(q, e.ups) IN R(q2, PObs(c, q2, e))
      [] e.op = "reload" -> LET q2 == IF e.full = 1 THEN q ELSE <<>> IN R(q2, PObs(c, q2, e))
      [] e.op = "exc" -> R(q, {"UnexpectedException"})
=============================================================================
