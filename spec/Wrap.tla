----------------------------------- MODULE Wrap -----------------------------------
(* Environments that wrap a simulator: gym, Atari games, dm_control.  e.calls are the     *)
(* calls the simulator received during one call of the wrapper, with what it returned:     *)
(* c the name, a the action, o the observation, r the reward, d the end, l the lives.       *)
EXTENDS Integers, Sequences, FiniteSets
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Start(c) == [hist |-> <<>>, lives |-> 0, real |-> 1, fire |-> 0, first |-> 0, seen |-> {}, ends |-> c.ends]
Steps(e) == SelectSeq(e.calls, LAMBDA x : x.c = "step")
Others(e) == SelectSeq(e.calls, LAMBDA x : x.c # "step")
RECURSIVE SumR(_)
SumR(q) == IF q = <<>> THEN 0 ELSE Head(q).r + SumR(Tail(q))
--------------------------------------------------------------------------------
\* gym and dm_control: one call of the simulator per call of the wrapper
Plain(c, s, e) ==
    CASE e.op = "reset" ->
            R(s, Chk(Len(e.calls) = 1 /\ e.calls[1].c = "reset", "OneResetPerReset")
                 \cup (IF Len(e.calls) # 1 THEN {} ELSE
                       IF e.given = <<>> THEN Chk(e.obs = e.calls[1].o, "ObservationOfTheSimulator")
                       ELSE Chk(e.obs = e.given, "GivenStateReturned") \cup Chk(e.st = e.given, "StartsFromTheGivenState")))
      [] e.op = "step" ->
            R(s, Chk(Len(e.calls) = 1 /\ e.calls[1].c = "step", "OneStepPerStep")
                 \cup (IF Len(e.calls) # 1 THEN {} ELSE
                       Chk(e.calls[1].a = e.a, "ActionGiven")
                       \cup Chk(e.obs = e.calls[1].o, "ObservationOfTheSimulator")
                       \cup Chk(e.r = e.calls[1].r, "RewardOfTheSimulator")
                       \cup Chk(e.ab = e.calls[1].d, "EndOfTheSimulator")
                       \cup Chk(e.inf = e.calls[1].l, "InformationOfTheSimulator")))
--------------------------------------------------------------------------------
\* Atari: frames are pairs (grey levels of the two halves of the screen)
Pool(c, x, y) == [i \in 1..2 |-> IF c.max = 1 THEN (IF x[i] > y[i] THEN x[i] ELSE y[i]) ELSE (x[i] + y[i]) \div 2]
Repeat(c) == IF c.skip = 1 THEN c.h ELSE 1
Push(q, x) == Append(Tail(q), x)
LeadingNoOps(q) == LET z == {n \in 0..Len(q) : \A i \in 1..n : q[i].a = <<0>>} IN CHOOSE n \in z : \A m \in z : m <= n
Atari(c, s, e) ==
    CASE e.op = "reset" ->
            LET fresh == Len(e.calls) = 1 /\ e.calls[1].c = "reset"
                n == [s EXCEPT !.hist = IF s.real = 1 /\ fresh THEN [i \in 1..c.h |-> e.calls[1].o] ELSE @,
                               !.lives = IF s.real = 1 THEN c.lives ELSE @, !.fire = c.fire, !.first = 1]
            IN R(n, Chk(IF s.real = 1 THEN fresh ELSE e.calls = <<>>, "GameRestartsOnlyWhenOver")
                    \cup Chk(e.obs = n.hist, "HistoryOfFrames") \cup Chk(e.shape = <<c.h, c.height, c.width>>, "ShapeOfTheState"))
      [] e.op = "step" ->
            LET q == Steps(e)
                f == IF s.fire = 1 THEN 1 ELSE 0
                q1 == IF Len(q) >= f THEN SubSeq(q, f + 1, Len(q)) ELSE <<>>
                m == IF s.first = 1 THEN LeadingNoOps(q1) ELSE 0
                act == SubSeq(q1, m + 1, Len(q1))
                k == Len(act)
                over == k > 0 /\ act[k].d = 1
                full == k = Repeat(c)
                lost == k > 0 /\ act[k].l # s.lives
                frame == IF c.skip = 0 \/ k < 2 THEN act[k].o ELSE Pool(c, act[k - 1].o, act[k].o)
                known == k > 0 /\ full /\ Len(s.hist) = c.h /\ ~(c.skip = 1 /\ c.h = 1)
                n == [s EXCEPT !.hist = IF known THEN Push(@, frame) ELSE e.obs, !.lives = IF k > 0 THEN act[k].l ELSE @,
                               !.real = IF over THEN 1 ELSE 0, !.fire = IF lost THEN c.fire ELSE 0, !.first = 0,
                               !.seen = IF s.first = 1 THEN @ \cup {m} ELSE @]
            IN R(n, Chk(Others(e) = <<>> /\ k > 0 /\ (f = 1 => q[1].a = <<1>>), "FireFirst")
                    \cup Chk(m <= c.noop, "NoOpActions")
                    \cup Chk(k > 0 /\ (\A i \in 1..k : act[i].a = e.a) /\ k <= Repeat(c) /\ (full \/ over) /\ (\A i \in 1..(k - 1) : act[i].d = 0), "ActionRepeated")
                    \cup (IF k = 0 THEN {} ELSE
                          Chk(e.r = SumR(act), "SumOfRewards")
                          \cup Chk(e.ab = (IF over \/ (lost /\ s.ends = 1) THEN 1 ELSE 0), "End")
                          \cup Chk(known => e.obs = n.hist, "HistoryOfFrames")
                          \cup Chk(Len(e.obs) = c.h /\ (Len(s.hist) = c.h => SubSeq(e.obs, 1, c.h - 1) = Tail(s.hist)), "OlderFramesKept")
                          \cup Chk(e.inf = act[k].l, "InformationOfTheSimulator")))
      [] e.op = "close" -> R([s EXCEPT !.real = 1], Chk(Len(e.calls) = 1 /\ e.calls[1].c = "close", "Closed"))
      [] e.op = "ends" -> R([s EXCEPT !.ends = e.x], {})
      [] e.op = "noops" -> R(s, Chk(s.seen = 0..c.noop, "EveryNumberOfNoOpActions"))
--------------------------------------------------------------------------------
Apply(c, s, e) ==
    CASE e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
      [] e.op = "info" -> R(s, Chk(e.got = e.want, "DescriptionOfTheEnvironment"))
      [] e.op = "kept" -> R(s, Chk(e.x = e.y, "EarlierObservationsNotChanged"))
      [] e.op = "other" -> R(s, Chk(e.calls = e.want, "CallForwarded"))
      [] e.op = "made" -> R(s, Chk(e.got = e.want, "EnvironmentMade"))
      [] OTHER -> IF c.w = "atari" THEN Atari(c, s, e) ELSE Plain(c, s, e)
=============================================================================
