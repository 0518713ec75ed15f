-------------------------------- MODULE Replay --------------------------------
(* Replay memory: a bounded first-in first-out store of n-step transitions.       *)
(* A transition is <<state, action, reward, next state, absorbing, last, pstate, *)
(* next pstate>>; rewards are on the grid 1/Sc.                                   *)
EXTENDS Integers, Sequences, FiniteSets
Chk(b, name) == IF b THEN {} ELSE {name}
Sc == 64
R(s, bad) == [s |-> s, bad |-> bad]
Range(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)

\* sum of the rewards of D[i..i+n-1], discounted by (1/gd)^k, on the grid 1/Sc
RECURSIVE Ret(_, _, _, _, _)
Ret(D, i, n, gd, k) == IF k = n THEN 0 ELSE (D[i + k][3] * Sc) \div Pow(gd, k) + Ret(D, i, n, gd, k + 1)

\* an n-step window never crosses the end of an episode
Admissible(D, i, n) == i + n - 1 <= Len(D) /\ \A k \in 0..(n - 2) : D[i + k][6] = 0
Window(D, i, n, gd) == LET z == D[i + n - 1] IN
    <<D[i][1], D[i][2], Ret(D, i, n, gd, 0), z[4], z[5], z[6], D[i][7], z[8]>>
RECURSIVE WindowsFrom(_, _, _, _)
WindowsFrom(D, n, gd, i) == IF i > Len(D) THEN <<>>
    ELSE (IF Admissible(D, i, n) THEN <<Window(D, i, n, gd)>> ELSE <<>>) \o WindowsFrom(D, n, gd, i + 1)
Windows(D, n, gd) == WindowsFrom(D, n, gd, 1)

LastN(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))

\* state: the stored transitions, oldest first; number of insertions since the last reset
Start(c) == [q |-> <<>>, tot |-> 0]
Put(c, s, W) == [q |-> LastN(s.q \o W, c.max), tot |-> s.tot + Len(W)]

Obs(c, s, e) == Chk(e.size = Len(s.q), "SizeIsBounded")
                \cup Chk(e.init = (IF Len(s.q) > c.init THEN 1 ELSE 0), "InitializedThreshold")
Sampled(c, s, e) ==
    LET got == Range(e.got) IN
    Chk(got \subseteq Range(s.q), "SamplesAreStored")
    \cup Chk(Range(s.q) \subseteq got, "EveryStoredTransitionReachable")
    \cup Chk(e.n = e.asked, "RequestedBatchSize")

Apply(c, s, e) ==
    CASE e.op = "add"   -> LET s1 == Put(c, s, Windows(e.smps, e.n, e.gd))
                           IN R(s1, Obs(c, s1, e) \cup Chk(e.intact = 1, "CallerDataUntouched"))
      [] e.op = "get"   -> R(s, Obs(c, s, e) \cup Sampled(c, s, e))
      [] e.op = "reset" -> R(Start(c), Obs(c, Start(c), e))
      [] e.op = "reload"-> R(IF e.full = 1 THEN s ELSE Start(c), Obs(c, IF e.full = 1 THEN s ELSE Start(c), e))
      [] e.op = "exc"   -> R(s, {"UnexpectedException"})
      [] e.op = "end"   -> R(s, {})
=============================================================================
