--------------------------------- MODULE Core ---------------------------------
(* The run loop of an experiment (one agent, one environment): what may be     *)
(* observed at the boundary between the loop, the agent, the environment, the  *)
(* state preprocessors, the recorder and the callbacks.                        *)
(*                                                                             *)
(* The specification is a total fold: Apply(c, s, e) gives, for every state    *)
(* and every observed event, the set of violated clauses and the next state.   *)
(* The same operator is used by MCCore (design exploration and generation of   *)
(* behaviours) and by TraceCore (validation of traces of the real code).       *)
EXTENDS Integers, Sequences, FiniteSets

None == -1
Chk(b, name) == IF b THEN {} ELSE {name}

(* c.H     horizon of the environment, 0 when infinite                          *)
(* c.K     number of fit callbacks                                              *)
(* c.P     sequence of state preprocessors <<mul, add>>                         *)
(* c.epi   the agent is episodic (it provides policy parameters at each start)  *)
(* c.sful  the policy is stateful                                               *)

InitState == [ph |-> "idle", mode |-> "none", ns |-> None, ne |-> None, inits |-> <<>>, spf |-> None, epf |-> None,
              render |-> 0, record |-> 0,
              totS |-> 0, totE |-> 0, curS |-> 0, curE |-> 0, epS |-> 0, need |-> TRUE,
              ppk |-> 1, ppc |-> FALSE, ppx |-> 0, epst |-> FALSE, raw |-> 0,
              x |-> 0, ps |-> None, a |-> 0, na |-> None, fresh |-> FALSE,
              smp |-> <<>>, rend |-> FALSE, rec |-> FALSE, cbd |-> FALSE, fitd |-> FALSE, ncb |-> 0,
              buf |-> <<>>, inf |-> <<>>, th |-> <<>>, fb |-> <<>>, fbi |-> <<>>, as |-> FALSE, es |-> FALSE,
              raise |-> FALSE]

Start(c) == InitState

\* exactly one budget; for learning, exactly one fit frequency
NGiven(e) == (IF e.ns # None THEN 1 ELSE 0) + (IF e.ne # None THEN 1 ELSE 0) + (IF e.hasinit = 1 THEN 1 ELSE 0)
ValidCall(e) ==
    /\ NGiven(e) = 1
    /\ e.mode = "learn" => ((e.spf # None) # (e.epf # None)) /\ e.hasinit = 0
    /\ e.record = 1 => e.render = 1

NEp(s) == IF s.inits # <<>> THEN Len(s.inits) ELSE s.ne
MoveReq(s) == IF s.ns # None THEN s.totS < s.ns ELSE s.totE < NEp(s)
FitReq(s) == /\ s.mode = "learn"
             /\ IF s.spf # None THEN s.curS >= s.spf ELSE s.curE >= s.epf
PPDone(c, s) == s.ppk > Len(c.P)
Out(c, s) == s.ppx     \* value after the preprocessors already applied

PostDone(c, s) ==
    /\ PPDone(c, s)
    /\ s.rend = (s.render = 1)
    /\ s.rec = (s.record = 1)
    /\ s.cbd
    /\ (FitReq(s) \/ s.fitd) => (s.fitd /\ s.ncb = c.K)

\* "post" collapses to "top" once everything due after a step has happened
Settle(c, s) ==
    IF s.ph = "post" /\ PostDone(c, s)
    THEN [s EXCEPT !.ph = "top", !.need = (s.smp[6] = 1), !.x = s.ppx]
    ELSE s

R(s, bad) == [s |-> s, bad |-> bad]

Call(c, s, e) ==
    LET ok == ValidCall(e)
        s0 == [InitState EXCEPT !.na = s.na]
        s1 == [s0 EXCEPT !.mode = e.mode, !.ns = e.ns, !.ne = e.ne, !.inits = e.inits, !.spf = e.spf, !.epf = e.epf,
                         !.render = e.render, !.record = e.record, !.ph = IF ok THEN "top" ELSE "reject"]
    IN R(s1, Chk(s.ph = "idle", "CallWhileRunning"))

Reset(c, s, e) ==
    LET want == IF s.inits = <<>> THEN None
                ELSE IF s.totE < Len(s.inits) THEN s.inits[s.totE + 1] ELSE None
        bad == Chk(s.ph = "top", "ResetAtEpisodeStart")
               \cup (IF s.ph = "top" THEN Chk(MoveReq(s), "BudgetExceeded") \cup Chk(s.need, "ResetMidEpisode") ELSE {})
               \cup Chk(e.arg = want, "InitialStateInOrder")
    IN R([s EXCEPT !.ph = "reset", !.raw = e.ret, !.ppx = e.ret, !.ppk = 1, !.ppc = FALSE, !.epst = FALSE, !.epS = 0,
                   !.na = None, !.fresh = TRUE, !.need = FALSE], bad)

EpStart(c, s, e) ==
    R([s EXCEPT !.epst = TRUE, !.ps = e.ps, !.th = IF c.epi = 1 THEN Append(s.th, e.th) ELSE s.th],
      Chk(s.ph = "reset", "EpisodeStartOnlyAfterReset") \cup Chk(~s.epst, "EpisodeStartOnce")
      \cup Chk(e.info = s.raw, "EpisodeInfoForwarded"))

\* preprocessor k: first updated with, then applied to, the output of preprocessor k-1
PreU(c, s, e) ==
    R([s EXCEPT !.ppc = TRUE],
      Chk(s.ph \in {"reset", "post"} /\ ~PPDone(c, s), "PreprocessorOncePerObservation")
      \cup (IF PPDone(c, s) THEN {} ELSE Chk(e.k = s.ppk /\ ~s.ppc, "PreprocessorOrder") \cup Chk(e.x = s.ppx, "PreprocessorInput")))
PreC(c, s, e) ==
    IF PPDone(c, s) THEN R(s, {"PreprocessorOncePerObservation"}) ELSE
    R(Settle(c, [s EXCEPT !.ppc = FALSE, !.ppk = s.ppk + 1, !.ppx = c.P[s.ppk][1] * s.ppx + c.P[s.ppk][2]]),
      Chk(s.ph \in {"reset", "post"}, "PreprocessorOncePerObservation")
      \cup Chk(e.k = s.ppk /\ s.ppc, "PreprocessorOrder") \cup Chk(e.x = s.ppx, "PreprocessorInput"))

Draw(c, s, e) ==
    LET first == s.ph = "reset"
        bad == Chk(s.ph \in {"top", "reset"}, "DrawOncePerStep")
               \cup (IF s.ph = "top" THEN Chk(MoveReq(s), "BudgetExceeded") \cup Chk(~s.need, "ResetBeforeFirstStep") ELSE {})
               \cup (IF first THEN Chk(s.epst, "EpisodeStartNotified") \cup Chk(PPDone(c, s), "ObservationPreprocessed") ELSE {})
               \cup Chk(e.x = (IF first THEN s.ppx ELSE s.x), "AgentSeesCurrentState")
               \cup Chk(e.ps = s.ps, "PolicyStateChained")
               \cup Chk(e.na = s.na, "PendingActionClearedAtReset")
               \cup (IF s.na # None THEN Chk(e.a = s.na, "PendingActionUsed") ELSE {})
    IN R([s EXCEPT !.ph = "act", !.x = e.x, !.a = e.a, !.smp = <<e.x, e.a, 0, 0, 0, 0, e.ps, e.nps>>, !.ps = e.nps,
                   !.na = None, !.fresh = FALSE], bad)

Step(c, s, e) ==
    LET es == s.epS + 1
        last == IF e.ab = 1 \/ (c.H > 0 /\ es >= c.H) THEN 1 ELSE 0
        s1 == [s EXCEPT !.ph = "post", !.epS = es, !.raw = e.ret, !.ppx = e.ret, !.ppk = 1, !.ppc = FALSE,
                        !.totS = s.totS + 1, !.curS = s.curS + 1,
                        !.totE = s.totE + last, !.curE = s.curE + last,
                        !.smp = <<s.x, s.a, e.r, 0, e.ab, last, s.smp[7], s.smp[8]>>,
                        !.rend = FALSE, !.rec = FALSE, !.cbd = FALSE, !.fitd = FALSE, !.ncb = 0,
                        !.inf = Append(s.inf, e.info)]
    IN R(s1, Chk(s.ph = "act", "StepFollowsDraw") \cup Chk(e.a = s.a, "ActionExecutedIsActionDrawn"))

FullSample(s) == [s.smp EXCEPT ![4] = s.ppx]

Render(c, s, e) ==
    R(Settle(c, [s EXCEPT !.rend = TRUE]),
      Chk(s.ph = "post" /\ s.render = 1 /\ ~s.rend, "RenderOncePerStep") \cup Chk(e.record = s.record, "RenderRecordFlag"))
Rec(c, s, e) ==
    R(Settle(c, [s EXCEPT !.rec = TRUE]), Chk(s.ph = "post" /\ s.record = 1 /\ s.rend /\ ~s.rec, "RecordedOncePerFrame"))

\* the step callback closes the transition: it enters the buffer of transitions not fitted yet
CbStep(c, s, e) ==
    LET smp == FullSample(s)
        s1 == [s EXCEPT !.cbd = TRUE, !.buf = Append(s.buf, smp)]
    IN R(Settle(c, s1),
         Chk(s.ph = "post" /\ ~s.cbd /\ PPDone(c, s), "StepCallbackOnce")
         \cup Chk(e.smp = smp, "TransitionFaithful"))

\* an episodic agent receives exactly the parameters of the episodes started since the last fit
Fit(c, s, e) ==
    LET bad == Chk(s.ph = "post" /\ ~s.fitd /\ s.cbd /\ FitReq(s), "FitExactlyWhenDue")
               \cup Chk(e.smps = s.buf, "FitReceivesEachTransitionOnceInOrder")
               \cup Chk(e.infos = s.inf, "FitReceivesStepInfo")
               \cup Chk(e.stable = 1, "FittedDataStable")
               \cup (IF c.epi = 1 THEN Chk(e.th = s.th, "FitReceivesEpisodeParameters") ELSE {})
        s1 == [s EXCEPT !.fitd = TRUE, !.curS = 0, !.curE = 0, !.na = e.na, !.fb = s.buf, !.fbi = s.inf,
                        !.buf = <<>>, !.inf = <<>>, !.th = <<>>]
    IN R(Settle(c, s1), bad)
CbFit(c, s, e) ==
    LET s1 == [s EXCEPT !.ncb = s.ncb + 1]
    IN R(Settle(c, s1),
         Chk(s.ph = "post" /\ s.fitd /\ s.ncb < c.K /\ e.k = s.ncb + 1, "FitCallbacksOnceInOrder")
         \cup Chk(e.smps = s.fb, "FitCallbackSeesFittedData"))

AStop(c, s, e) == R([s EXCEPT !.as = TRUE],
    Chk(s.ph = "top" /\ ~s.as, "AgentStopOnce") \cup (IF s.ph = "top" THEN Chk(~MoveReq(s), "StoppedBeforeBudget") ELSE {}))
EStop(c, s, e) == R([s EXCEPT !.es = TRUE],
    Chk(s.ph = "top" /\ ~s.es, "EnvStopOnce") \cup (IF s.ph = "top" THEN Chk(~MoveReq(s), "StoppedBeforeBudget") ELSE {}))

Ret(c, s, e) ==
    LET bad == Chk(s.ph = "top" /\ s.as /\ s.es, "ReturnAfterStop")
               \cup (IF s.ph = "top" THEN Chk(~MoveReq(s), "StoppedBeforeBudget") ELSE {})
               \cup (IF s.mode = "evaluate"
                     THEN Chk(e.smps = s.buf, "EvaluateReturnsEveryTransition") \cup Chk(e.infos = s.inf, "EvaluateReturnsStepInfo")
                     ELSE {})
    IN R([InitState EXCEPT !.na = s.na], bad)
Raise(c, s, e) == R([InitState EXCEPT !.na = s.na], Chk(s.ph = "reject", "UnexpectedException"))

Apply(c, s, e) ==
    IF s.ph = "reject" /\ e.op # "raise" THEN R(s, {"InvalidBudgetRejected"}) ELSE
    CASE e.op = "call"    -> Call(c, s, e)
      [] e.op = "reset"   -> Reset(c, s, e)
      [] e.op = "epstart" -> EpStart(c, s, e)
      [] e.op = "preu"    -> PreU(c, s, e)
      [] e.op = "prec"    -> PreC(c, s, e)
      [] e.op = "draw"    -> Draw(c, s, e)
      [] e.op = "step"    -> Step(c, s, e)
      [] e.op = "render"  -> Render(c, s, e)
      [] e.op = "rec"     -> Rec(c, s, e)
      [] e.op = "cb"      -> CbStep(c, s, e)
      [] e.op = "fit"     -> Fit(c, s, e)
      [] e.op = "cbfit"   -> CbFit(c, s, e)
      [] e.op = "astop"   -> AStop(c, s, e)
      [] e.op = "estop"   -> EStop(c, s, e)
      [] e.op = "ret"     -> Ret(c, s, e)
      [] e.op = "raise"   -> Raise(c, s, e)
      [] e.op = "end"     -> R(s, Chk(s.ph = "idle", "RunNotFinished"))
=============================================================================
