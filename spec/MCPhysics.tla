-------------------------------- MODULE MCPhysics --------------------------------
(* Design: an environment that runs its hooks as it should, over a simulator whose data       *)
(* change arbitrarily at every simulator step.  The events are computed by this module and     *)
(* judged by the operator that judges the real ones; the invariants are the guarantees.        *)
EXTENDS Physics, TLC
CONSTANTS Depth, K, M, Comp, Rem
VARIABLES s, raw, t, bad, fresh
C == [sim |-> "mujoco", neg |-> 1, k |-> K, m |-> M, comp |-> Comp, nu |-> 3, idx |-> <<3, 1>>, models |-> 1, rand |-> 0,
      q0 |-> <<<< <<0>>, <<0, 0>> >>>>,
      ent |-> << [key |-> "p", kind |-> "jp", n |-> 1, rem |-> <<>>, lo |-> <<-1>>, hi |-> <<1>>],
                 [key |-> "b", kind |-> "-", n |-> 2, rem |-> (IF Rem = 0 THEN <<>> ELSE <<Rem>>), lo |-> <<-Inf, -Inf>>, hi |-> <<Inf, Inf>>] >>]
Raws == {<< <<x>>, <<x, y>> >> : x, y \in 0..1}
Init == s = Start(C) /\ raw = << <<0>>, <<0, 0>> >> /\ t = 0 /\ bad = {} /\ fresh = 0
DoReset == LET z == << <<0>>, <<0, 0>> >>
               r == Apply(C, s, [op |-> "reset", given |-> <<>>, raw |-> z, obs |-> Seen(C, Obs(C, z)), m |-> 0, t |-> 0, ctrl |-> <<0, 0, 0>>, inf |-> 1])
           IN s' = r.s /\ raw' = z /\ t' = 0 /\ bad' = r.bad /\ fresh' = 1
DoStep == \E rs \in [1..K -> Raws], a \in {<<0, 1>>, <<1, 1>>} :
    LET out == <<a[1] * 2, a[2]>>
        o(i) == IF i = 1 THEN s.obs ELSE Obs(C, rs[i - 1])
        new == Obs(C, rs[K])
        cmd(i) == IF Comp = 1 THEN <<out[1] + i, out[2]>> ELSE out
        one(i) == (IF Comp = 1 THEN <<[h |-> "act", o |-> o(i), a |-> out, out |-> cmd(i)]>> ELSE <<>>)
                  \o <<[h |-> "pre", ctrl |-> <<cmd(i)[2], 0, cmd(i)[1]>>, t |-> t + ((i - 1) * M)], [h |-> "post", raw |-> rs[i], t |-> t + (i * M)]>>
        sim == IF K = 1 THEN one(1) ELSE one(1) \o one(2)
        hooks == <<[h |-> "prep", a |-> a, out |-> out], [h |-> "init", o |-> s.obs, a |-> out]>> \o sim
                 \o <<[h |-> "fin"], [h |-> "abs", o |-> new, out |-> 0], [h |-> "rew", o |-> s.obs, a |-> out, n |-> new, ab |-> 0, out |-> 5],
                      [h |-> "info", o |-> new, out |-> 7], [h |-> "mod", o |-> new]>>
        r == Apply(C, s, [op |-> "step", a |-> a, hooks |-> hooks, obs |-> Seen(C, new), r |-> 5, ab |-> 0, inf |-> 7])
    IN fresh = 1 /\ s' = r.s /\ raw' = rs[K] /\ t' = t + (K * M) /\ bad' = r.bad /\ fresh' = 1
Next == TLCGet("level") <= Depth /\ (DoReset \/ DoStep)
Accepted == bad = {}
ObservesTheSimulator == fresh = 1 => s.obs = Obs(C, raw)
TimeAdvances == s.n = t
Layout == /\ Len(Lay(C, 1)) = 3 - Len(C.ent[2].rem)
          /\ \A i, j \in 1..Len(Lay(C, 1)) : i < j => (Lay(C, 1)[i][1] < Lay(C, 1)[j][1] \/ (Lay(C, 1)[i][1] = Lay(C, 1)[j][1] /\ Lay(C, 1)[i][2] < Lay(C, 1)[j][2]))
          /\ Len(Low(C)) = Len(High(C)) /\ \A i \in 1..Len(Low(C)) : Low(C)[i] < High(C)[i]
=============================================================================
