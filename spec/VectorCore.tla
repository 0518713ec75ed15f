------------------------------ MODULE VectorCore ------------------------------
(* The run loop over n parallel environments.  Every environment, seen alone,     *)
(* behaves as in a sequential run; budgets count the steps and episodes of all    *)
(* environments; fits partition the transitions in the order of time and receive  *)
(* them environment by environment, each trajectory closed at its last transition.*)
EXTENDS Integers, Sequences, FiniteSets
None == -1
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
(* c.n environments; c.H horizon; c.K fit callbacks; c.P preprocessor <<mul, add>>; c.epi; c.sful *)
Env(c) == 1..c.n
Zero(c) == [j \in Env(c) |-> 0]
InitState(c) == [ph |-> "idle", mode |-> "none", ns |-> None, ne |-> None, inits |-> <<>>, spf |-> None, epf |-> None,
    run |-> {}, x |-> Zero(c), ps |-> Zero(c), a |-> Zero(c), nps |-> Zero(c), epS |-> Zero(c), drawx |-> Zero(c), drawps |-> Zero(c),
    totS |-> 0, totE |-> 0, curS |-> 0, curE |-> 0, started |-> 0, rmask |-> {}, pend |-> <<>>, th |-> <<>>, cur |-> <<>>,
    fits |-> 0, ncb |-> 0, cbd |-> FALSE, as |-> FALSE, es |-> FALSE, infos |-> Zero(c)]
Start(c) == InitState(c)
Set(c, m) == {j \in Env(c) : m[j] = 1}
Pre(c, v) == c.P[1] * v + c.P[2]
MoveReq(s) == IF s.ns # None THEN s.totS < s.ns ELSE s.totE < (IF s.inits # <<>> THEN Len(s.inits) ELSE s.ne)
\* budget of episodes that may still be started or are running
EpBudgetOk(s) == /\ (s.ns = None => s.totE + Cardinality(s.run) <= (IF s.inits # <<>> THEN Len(s.inits) ELSE s.ne))
                 /\ (s.mode = "learn" /\ s.epf # None => s.curE + Cardinality(s.run) <= s.epf)
NoEpLimit(s) == s.ns # None /\ (s.mode # "learn" \/ s.epf = None)
FitReq(s) == s.mode = "learn" /\ IF s.spf # None THEN s.curS >= s.spf ELSE s.curE >= s.epf

\* pend: sequence of [j |-> env, smp |-> transition, inf |-> info], ordered by time, then by environment
RECURSIVE OfEnv(_, _)
OfEnv(q, j) == IF q = <<>> THEN <<>> ELSE (IF Head(q).j = j THEN <<Head(q)>> ELSE <<>>) \o OfEnv(Tail(q), j)
Close(q) == IF q = <<>> THEN q ELSE [q EXCEPT ![Len(q)].smp[6] = 1]
RECURSIVE FlatFrom(_, _, _)
FlatFrom(c, q, j) == IF j > c.n THEN <<>> ELSE Close(OfEnv(q, j)) \o FlatFrom(c, q, j + 1)
Flat(c, q) == FlatFrom(c, q, 1)
Smps(q) == [k \in 1..Len(q) |-> q[k].smp]
Infs(q) == [k \in 1..Len(q) |-> q[k].inf]
RECURSIVE ThFrom(_, _, _)
ThFrom(c, th, j) == IF j > c.n THEN <<>>
    ELSE LET RECURSIVE G(_)
             G(k) == IF k > Len(th) THEN <<>> ELSE (IF th[k][1] = j THEN <<th[k][2]>> ELSE <<>>) \o G(k + 1)
         IN G(1) \o ThFrom(c, th, j + 1)

Call(c, s, e) == R([InitState(c) EXCEPT !.mode = e.mode, !.ns = e.ns, !.ne = e.ne, !.inits = e.inits, !.spf = e.spf,
                    !.epf = e.epf, !.ph = "top"], Chk(s.ph = "idle", "CallWhileRunning"))
\* the k-th starting environment (in order) receives the next initial state
Rank(m, j) == Cardinality({i \in m : i <= j})
Reset(c, s, e) ==
    LET m == Set(c, e.mask)
        s1 == [s EXCEPT !.ph = "reset", !.rmask = m, !.run = s.run \cup m, !.started = s.started + Cardinality(m),
                        !.x = [j \in Env(c) |-> IF j \in m THEN Pre(c, e.ret[j]) ELSE s.x[j]],
                        !.epS = [j \in Env(c) |-> IF j \in m THEN 0 ELSE s.epS[j]]]
    IN R(s1, Chk(s.ph = "top", "ResetAtEpisodeStart") \cup Chk(s.ph # "top" \/ MoveReq(s), "BudgetExceeded")
             \cup Chk(m \cap s.run = {}, "ResetMidEpisode")
             \cup (IF s.inits # <<>> THEN Chk(\A j \in m : s.started + Rank(m, j) <= Len(s.inits)
                                               /\ e.arg[j] = s.inits[s.started + Rank(m, j)], "InitialStateInOrder")
                   ELSE Chk(\A j \in m : e.arg[j] = None, "InitialStateInOrder")))
EpStart(c, s, e) ==
    LET m == Set(c, e.mask)
        RECURSIVE Th(_)
        Th(j) == IF j > c.n THEN <<>> ELSE (IF j \in m THEN <<<<j, e.th[j]>>>> ELSE <<>>) \o Th(j + 1)
    IN R([s EXCEPT !.ph = "ready", !.ps = [j \in Env(c) |-> IF j \in m THEN e.ps[j] ELSE s.ps[j]],
                   !.th = IF c.epi = 1 THEN s.th \o Th(1) ELSE s.th],
         Chk(s.ph = "reset", "EpisodeStartAfterReset") \cup Chk(m = s.rmask, "EpisodeStartMask"))
Draw(c, s, e) ==
    R([s EXCEPT !.ph = "act", !.a = e.a, !.nps = e.nps],
      Chk(s.ph \in {"top", "ready"}, "DrawOncePerStep") \cup Chk(s.ph # "top" \/ MoveReq(s), "BudgetExceeded")
      \cup Chk(\A j \in s.run : e.x[j] = s.x[j], "AgentSeesCurrentState")
      \cup Chk(c.sful = 0 \/ \A j \in s.run : e.ps[j] = s.ps[j], "PolicyStateChained"))
Step(c, s, e) ==
    LET m == Set(c, e.mask)
        es == [j \in Env(c) |-> IF j \in m THEN s.epS[j] + 1 ELSE s.epS[j]]
        last == [j \in Env(c) |-> IF j \in m /\ (e.ab[j] = 1 \/ es[j] >= c.H) THEN 1 ELSE 0]
        smp == [j \in Env(c) |-> <<s.x[j], s.a[j], e.r[j], Pre(c, e.ret[j]), e.ab[j], last[j],
                                   IF c.sful = 1 THEN s.ps[j] ELSE None, IF c.sful = 1 THEN s.nps[j] ELSE None>>]
        nl == Cardinality({j \in m : last[j] = 1})
        RECURSIVE App(_)
        App(j) == IF j > c.n THEN <<>> ELSE (IF j \in m THEN <<[j |-> j, smp |-> smp[j], inf |-> e.info[j]]>> ELSE <<>>) \o App(j + 1)
        s1 == [s EXCEPT !.ph = "post", !.epS = es, !.x = [j \in Env(c) |-> IF j \in m THEN Pre(c, e.ret[j]) ELSE s.x[j]],
                        !.ps = s.nps, !.run = s.run \ {j \in m : last[j] = 1},
                        !.totS = s.totS + Cardinality(m), !.curS = s.curS + Cardinality(m), !.totE = s.totE + nl, !.curE = s.curE + nl,
                        !.pend = s.pend \o App(1), !.cur = smp, !.rmask = m, !.cbd = FALSE, !.fits = 0, !.ncb = c.K]
    IN R(s1, Chk(s.ph = "act", "StepFollowsDraw") \cup Chk(m = s.run, "ExactlyRunningEnvironmentsStepped") \cup Chk(m # {}, "NoIdleStep")
             \cup Chk(EpBudgetOk(s), "EpisodeBudgetExceeded") \cup Chk(~NoEpLimit(s) \/ m = Env(c), "AllEnvironmentsActive")
             \cup Chk(\A j \in m : e.a[j] = s.a[j], "ActionExecutedIsActionDrawn"))
Due(c, s) == s.ph = "post" /\ (~s.cbd \/ FitReq(s) \/ s.ncb < c.K)
Settle(c, s) == IF s.ph = "post" /\ ~Due(c, s) THEN [s EXCEPT !.ph = "top"] ELSE s
Cb(c, s, e) == R(Settle(c, [s EXCEPT !.cbd = TRUE]), Chk(s.ph = "post" /\ ~s.cbd, "StepCallbackOnce")
    \cup Chk(\A j \in s.rmask : e.smp[j] = s.cur[j], "TransitionFaithful"))
Fit(c, s, e) ==
    LET n == IF s.spf # None THEN (IF s.spf < Len(s.pend) THEN s.spf ELSE Len(s.pend)) ELSE Len(s.pend)
        used == SubSeq(s.pend, 1, n)
        rest == SubSeq(s.pend, n + 1, Len(s.pend))
        fl == Flat(c, used)
        s1 == [s EXCEPT !.pend = rest, !.curS = IF s.spf # None THEN s.curS - s.spf ELSE 0, !.curE = 0, !.th = <<>>,
                        !.fits = s.fits + 1, !.ncb = 0]
    IN R(Settle(c, s1), Chk(s.ph = "post" /\ s.cbd /\ FitReq(s) /\ s.ncb = c.K, "FitExactlyWhenDue")
         \cup Chk(e.smps = Smps(fl), "FitReceivesEachTransitionOnce") \cup Chk(e.infos = Infs(fl), "FitReceivesStepInfo")
         \cup (IF c.epi = 1 /\ s.epf # None THEN Chk(e.th = ThFrom(c, s.th, 1), "FitReceivesEpisodeParameters") ELSE {}))
CbFit(c, s, e) == R(Settle(c, [s EXCEPT !.ncb = s.ncb + 1]),
    Chk(s.ph = "post" /\ s.ncb < c.K /\ e.k = s.ncb + 1, "FitCallbacksOnceInOrder"))
AStop(c, s, e) == R([s EXCEPT !.as = TRUE], Chk(s.ph = "top" /\ ~s.as, "AgentStopOnce") \cup Chk(s.ph # "top" \/ ~MoveReq(s), "StoppedBeforeBudget"))
EStop(c, s, e) == R([s EXCEPT !.es = TRUE], Chk(s.ph = "top" /\ ~s.es, "EnvStopOnce") \cup Chk(s.ph # "top" \/ ~MoveReq(s), "StoppedBeforeBudget"))
Ret(c, s, e) ==
    LET fl == Flat(c, s.pend) IN
    R(InitState(c), Chk(s.ph = "top" /\ s.as /\ s.es, "ReturnAfterStop") \cup Chk(s.ph # "top" \/ ~MoveReq(s), "StoppedBeforeBudget")
      \cup (IF s.mode = "evaluate" THEN Chk(e.smps = Smps(fl), "EvaluateReturnsEveryTransition") \cup Chk(e.infos = Infs(fl), "EvaluateReturnsStepInfo")
            \cup (IF c.epi = 1 THEN Chk(e.th = ThFrom(c, s.th, 1), "EvaluateReturnsEpisodeParameters") ELSE {}) ELSE {})
      \cup Chk(s.ns # None \/ s.run = {}, "EpisodesComplete"))
Apply(c, s, e) ==
    CASE e.op = "call" -> Call(c, s, e) [] e.op = "reset" -> Reset(c, s, e) [] e.op = "epstart" -> EpStart(c, s, e)
      [] e.op = "draw" -> Draw(c, s, e) [] e.op = "step" -> Step(c, s, e) [] e.op = "cb" -> Cb(c, s, e)
      [] e.op = "fit" -> Fit(c, s, e) [] e.op = "cbfit" -> CbFit(c, s, e) [] e.op = "astop" -> AStop(c, s, e)
      [] e.op = "estop" -> EStop(c, s, e) [] e.op = "ret" -> Ret(c, s, e)
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, Chk(s.ph = "idle", "RunNotFinished"))
=============================================================================
