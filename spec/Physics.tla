--------------------------------- MODULE Physics ---------------------------------
(* Environments over a physics simulator (MuJoCo, PyBullet): one agent step is k intermediate  *)
(* steps of m simulator steps, with hooks that subclasses override at documented points.       *)
(* The simulator is seen through raw data: one sequence of numbers per observation entry       *)
(* (c.ent), read independently of the environment.  Numbers are scaled and rounded.            *)
EXTENDS Integers, Sequences, FiniteSets
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Inf == 2000000000
Start(c) == [obs |-> <<>>, m |-> -1, seen |-> {}, n |-> 0]
--------------------------------------------------------------------------------
\* the layout of the observation: entries in the order given, without the removed components
Comps(c, j) == SelectSeq([i \in 1..c.ent[j].n |-> i], LAMBDA i : i \notin {c.ent[j].rem[x] : x \in 1..Len(c.ent[j].rem)})
RECURSIVE Lay(_, _)
Lay(c, j) == IF j > Len(c.ent) THEN <<>> ELSE [i \in 1..Len(Comps(c, j)) |-> <<j, Comps(c, j)[i]>>] \o Lay(c, j + 1)
RECURSIVE Flat(_, _, _)
Flat(c, raw, j) == IF j > Len(c.ent) THEN <<>> ELSE [i \in 1..Len(Comps(c, j)) |-> raw[j][Comps(c, j)[i]]] \o Flat(c, raw, j + 1)
Obs(c, raw) == Flat(c, raw, 1)
Seen(c, o) == IF c.neg = 1 THEN [i \in 1..Len(o) |-> -o[i]] ELSE o
Low(c) == LET l == Lay(c, 1) IN [i \in 1..Len(l) |-> c.ent[l[i][1]].lo[l[i][2]]]
High(c) == LET l == Lay(c, 1) IN [i \in 1..Len(l) |-> c.ent[l[i][1]].hi[l[i][2]]]
Where(c, j) == LET l == Lay(c, 1) IN SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : l[i][1] = j)
Kind(c, k) == LET l == Lay(c, 1) IN SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : c.ent[l[i][1]].kind = k /\ c.ent[l[i][1]].n = 1)
At(q, ix) == [i \in 1..Len(ix) |-> q[ix[i]]]
--------------------------------------------------------------------------------
\* the hooks of one step, in the order in which they ran
Of(e, h) == SelectSeq(e.hooks, LAMBDA x : x.h = h)
\* act (if the subclass computes actions), pre, post for every intermediate step, in this order
Simulated(e) == SelectSeq(e.hooks, LAMBDA x : x.h \in {"act", "pre", "post"})
Round(c) == IF c.comp = 1 THEN <<"act", "pre", "post">> ELSE <<"pre", "post">>
Rounds(c, e) == LET q == Simulated(e)
                    w == Len(Round(c))
                IN Len(q) = w * c.k /\ \A i \in 1..Len(q) : q[i].h = Round(c)[((i - 1) % w) + 1]
Pos(e, h) == {i \in 1..Len(e.hooks) : e.hooks[i].h = h}
Before(e, a, b) == \A i \in Pos(e, a), j \in Pos(e, b) : i < j
Once(e, h) == Cardinality(Pos(e, h)) = 1
Ordered(e) == /\ \A h \in {"prep", "init", "fin", "abs", "rew"} : Once(e, h)
              /\ Before(e, "prep", "init") /\ Before(e, "init", "act") /\ Before(e, "init", "pre")
              /\ Before(e, "post", "fin") /\ Before(e, "fin", "abs") /\ Before(e, "abs", "rew")
              /\ Before(e, "rew", "mod")
Controls(c, x) == \* what the actuators receive: the agent's command at the controlled ones, zero elsewhere
    [i \in 1..c.nu |-> IF \E j \in 1..Len(c.idx) : c.idx[j] = i THEN x[CHOOSE j \in 1..Len(c.idx) : c.idx[j] = i] ELSE 0]
Step(c, s, e) ==
    IF ~Ordered(e) THEN R(s, {"HooksInOrder"}) ELSE
    IF ~Rounds(c, e) THEN R(s, {"IntermediateSteps"}) ELSE
    LET prep == Of(e, "prep")[1]
        init == Of(e, "init")[1]
        act == Of(e, "act")
        pre == Of(e, "pre")
        post == Of(e, "post")
        ab == Of(e, "abs")[1]
        rew == Of(e, "rew")[1]
        inf == Of(e, "info")
        mod == Of(e, "mod")
        at(i) == IF i = 1 THEN s.obs ELSE Obs(c, post[i - 1].raw)
        cmd(i) == IF c.comp = 1 THEN act[i].out ELSE prep.out
        new == Obs(c, post[c.k].raw)
        n == [s EXCEPT !.obs = new, !.n = @ + c.k * c.m]
    IN R(n, Chk(prep.a = e.a, "ActionGiven")
            \cup Chk(init.o = s.obs /\ init.a = prep.out, "StepStartsFromTheLastObservation")
            \cup Chk(c.comp = 1 => \A i \in 1..c.k : act[i].o = at(i) /\ act[i].a = prep.out, "ActionsComputedFromTheCurrentState")
            \cup Chk(\A i \in 1..c.k : pre[i].ctrl = (IF c.sim = "mujoco" THEN Controls(c, cmd(i)) ELSE pre[i].ctrl), "ControlsApplied")
            \cup Chk(\A i \in 1..c.k : pre[i].t = s.n + ((i - 1) * c.m) /\ post[i].t = s.n + (i * c.m), "SimulatorSteps")
            \cup Chk(\A i \in 1..c.k : c.sim = "bullet" => post[i].raw = post[i].ref, "SameAsTheSimulator")
            \cup Chk(ab.o = new, "AbsorbingOfTheNewObservation")
            \cup Chk(rew.o = s.obs /\ rew.a = prep.out /\ rew.n = new /\ rew.ab = ab.out, "RewardOfTheTransition")
            \cup Chk(\A i \in 1..Len(inf) : inf[i].o = new, "InformationOfTheNewObservation")
            \cup Chk(\A i \in 1..Len(mod) : mod[i].o = new, "ModifiedObservation")
            \cup Chk(e.r = rew.out /\ e.ab = ab.out /\ (c.sim = "mujoco" => Len(inf) = 1 /\ e.inf = inf[1].out), "AnswerOfTheStep")
            \cup Chk(e.obs = Seen(c, new), "ObservationInTheOrderSpecified"))
--------------------------------------------------------------------------------
\* reset: entries of joints take the given values, or those of the model
Wanted(c, e, m, j, i) == IF e.given = <<>> THEN c.q0[m + 1][j][i]
                         ELSE LET l == Lay(c, 1)
                                  p == {x \in 1..Len(l) : l[x] = <<j, i>>}
                              IN IF p = {} THEN c.q0[m + 1][j][i] ELSE e.given[CHOOSE x \in p : TRUE]
Joint(c, j) == c.ent[j].kind \in {"jp", "jv"}
Reset(c, s, e) ==
    LET o == Obs(c, e.raw)
    IN R([s EXCEPT !.obs = o, !.m = e.m, !.seen = @ \cup {e.m}, !.n = 0],
         Chk(e.obs = Seen(c, o), "ObservationInTheOrderSpecified")
         \cup Chk(e.t = 0 /\ \A i \in 1..Len(e.ctrl) : e.ctrl[i] = 0, "ResetOfTheSimulator")
         \cup Chk(\A j \in 1..Len(c.ent) : Joint(c, j) => \A i \in 1..c.ent[j].n : e.raw[j][i] = Wanted(c, e, e.m, j, i), "StartsFromTheGivenState")
         \cup Chk(c.rand = 0 => (s.m = -1 \/ e.m = ((s.m + 1) % c.models)), "ModelsInTurn")
         \cup Chk(e.inf = 1, "InformationReturned"))
\* limits of the spaces and lookups by key
Info(c, s, e) ==
    R(s, Chk(e.low = Low(c) /\ e.high = High(c), "LimitsOfTheObservation")
         \cup Chk(e.alow = c.alow /\ e.ahigh = c.ahigh, "LimitsOfTheActions")
         \cup Chk(e.rest = c.rest, "ParametersOfTheEnvironment")
         \cup Chk(\A j \in 1..Len(c.ent) : e.where[j] = Where(c, j), "LookupByKey")
         \cup (IF c.sim # "mujoco" THEN {} ELSE
               Chk(e.keys = [j \in 1..Len(c.ent) |-> c.ent[j].key], "KeysOfTheObservation")
               \cup Chk(e.jp = Kind(c, "jp") /\ e.jv = Kind(c, "jv"), "JointsOfTheObservation")
               \cup Chk(e.jpl = <<At(Low(c), Kind(c, "jp")), At(High(c), Kind(c, "jp"))>> /\ e.jvl = <<At(Low(c), Kind(c, "jv")), At(High(c), Kind(c, "jv"))>>, "LimitsOfTheJoints")))
--------------------------------------------------------------------------------
\* contacts: pairs of geometries; groups: sets of them
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Touch(p, a, b) == (In(p[1], a) /\ In(p[2], b)) \/ (In(p[1], b) /\ In(p[2], a))
Coll(c, s, e) ==
    LET hit == {i \in 1..Len(e.pairs) : Touch(e.pairs[i], e.a, e.b)}
    IN R(s, Chk((e.got = 1) <=> (hit # {}), "CollisionsBetweenGroups")
            \cup Chk(IF hit = {} THEN \A i \in 1..6 : e.force[i] = 0 ELSE \E i \in hit : e.force = e.forces[i], "CollisionForce"))
RECURSIVE Bits(_)
Bits(q) == IF q = <<>> THEN 0 ELSE q[Len(q)] + (2 * Bits(SubSeq(q, 1, Len(q) - 1)))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Apply(c, s, e) ==
    CASE e.op = "end" -> R(s, {})
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "info" -> Info(c, s, e)
      [] e.op = "reset" -> Reset(c, s, e)
      [] e.op = "step" -> Step(c, s, e)
      [] e.op = "coll" -> Coll(c, s, e)
      [] e.op = "data" -> R(s, Chk(e.got = e.want, "DataReadAndWritten"))
      [] e.op = "kept" -> R(s, Chk(e.x = e.y, "ReturnedObservationsDoNotChange"))
      [] e.op = "models" -> R(s, Chk(s.seen = 0..(c.models - 1), "EveryModelIsUsed"))
      [] e.op = "refused" -> R(s, Chk(e.got = e.want, "DifferentSpacesRefused"))
      [] e.op = "ids" -> R(s, Chk(Bits(e.bits) = e.i /\ \A i \in 1..Len(e.bits) : e.bits[i] \in {0, 1}, "IdentityOfTheModel")
                              \cup Chk(Pow2(Len(e.bits)) >= e.n /\ (e.n > 2 => Pow2(Len(e.bits) - 1) < e.n), "FixedLengthIdentity"))
      [] OTHER -> R(s, {"UnknownEvent"})
=============================================================================
