------------------------------- MODULE MultiEnv -------------------------------
(* n copies of an environment driven together: a masked command reaches exactly   *)
(* the selected copies, each with its own argument; the others keep their state.  *)
(* The copies are AccEnv (harness): x := (3 x + a) mod 100000, t := t + 1.         *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Start(c) == [e |-> [j \in 1..c.n |-> [x |-> 0, t |-> 0, r |-> 0, seen |-> <<0, 0>>]], off |-> c.off]
Mod(a, m) == a % m
DoReset(c, s, q, e, j) ==
    IF e.mask[j] = 0 THEN q ELSE
    LET x == IF e.has = 1 THEN e.arg[j][1] ELSE 1000 * (q.r + 1) + s.off
        t == IF e.has = 1 THEN e.arg[j][2] ELSE 0
    IN [x |-> x, t |-> t, r |-> q.r + 1, seen |-> <<x, t>>]
DoStep(q, e, j) == IF e.mask[j] = 0 THEN q ELSE
    LET x == Mod(3 * q.x + e.a[j], 100000) IN [q EXCEPT !.x = x, !.t = q.t + 1, !.seen = <<x, q.t + 1>>]
RECURSIVE Sel(_, _, _)
Sel(c, s, e) == LET RECURSIVE F(_) F(j) == IF j > c.n THEN <<>> ELSE (IF e.mask[j] = 1 THEN <<Mod(s.e[j].x, 200)>> ELSE <<>>) \o F(j + 1) IN F(1)
Common(c, e) == Chk(e.stable = 1, "ReturnedDataStable") \cup Chk(e.number = c.n, "NumberOfEnvironments")
Apply(c, s, e) ==
    CASE e.op = "reset" -> LET s2 == [s EXCEPT !.e = [j \in 1..c.n |-> DoReset(c, s, s.e[j], e, j)]]
            IN R(s2, Common(c, e) \cup Chk(e.s = [j \in 1..c.n |-> s2.e[j].seen], "StatesRouted")
                  \cup Chk(\A j \in 1..c.n : e.nr[j] = (IF e.mask[j] = 1 THEN s2.e[j].r ELSE -1), "InfosRouted"))
      [] e.op = "step" -> LET s2 == [s EXCEPT !.e = [j \in 1..c.n |-> DoStep(s.e[j], e, j)]]
            IN R(s2, Common(c, e) \cup Chk(e.s = [j \in 1..c.n |-> s2.e[j].seen], "StatesRouted")
                  \cup Chk(\A j \in 1..c.n : e.mask[j] = 0 \/ e.r[j] = e.a[j] - s2.e[j].t, "RewardsRouted")
                  \cup Chk(\A j \in 1..c.n : e.ab[j] = (IF e.mask[j] = 1 /\ Mod(s2.e[j].x, 5) = 0 THEN 1 ELSE 0), "AbsorbingRouted")
                  \cup Chk(\A j \in 1..c.n : e.q[j] = (IF e.mask[j] = 1 THEN s2.e[j].x ELSE -1), "InfosRouted"))
      [] e.op = "seed" -> R([s EXCEPT !.off = e.v], Common(c, e))
      [] e.op = "stop" -> R([s EXCEPT !.e = [j \in 1..c.n |-> [s.e[j] EXCEPT !.t = 0]]], Common(c, e))
      [] e.op = "render" -> R(s, Common(c, e) \cup Chk(e.f = Sel(c, s, e), "FramesRouted"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
