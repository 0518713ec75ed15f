------------------------------- MODULE MCDeepAC -------------------------------
(* Design: the fits described by the specification are accepted, perturbed ones are  *)
(* rejected; the target copies stay between the smallest and the largest value the   *)
(* online models ever had, equal them when tau is one, and the actor is updated once *)
(* every delay fits.                                                                  *)
EXTENDS DeepAC, TLC
CONSTANTS Depth, Taus, Delays
VARIABLES c, st, n, acts
H == V \div 2
Ts == {<<<<0, H>>, <<H, -H>>>>, <<<<V, 0>>, <<-H, H>>>>}
Us == {<<<<0>>, <<H>>>>, <<<<-H>>, <<V>>>>}
Cfg(al, tau, dl) == [alg |-> al, nS |-> 2, nD |-> 1, nM |-> IF al = "ddpg" THEN 1 ELSE 2, g |-> 4, tau |-> tau, delay |-> dl, init |-> 1, warm |-> 1,
                     cap |-> 2, bs |-> 1, lo |-> <<-V>>, hi |-> <<V>>, clipg |-> 0, lra |-> 0, eplus |-> 1024, eminus |-> 1024, nc |-> H, ns |-> 0]
Rep(k, x) == [i \in 1..k |-> x]
Init == /\ c \in {Cfg(al, tau, dl) : al \in {"ddpg", "td3"}, tau \in Taus, dl \in Delays}
        /\ n = 0 /\ acts = 0
        /\ \E w \in Ts, u \in Us : st = Apply(c, Start(c), [op |-> "init", w |-> Rep(c.nM, w), u |-> <<u>>]).s
T == {[id |-> n + 1, r |-> H, s2 |-> s2, ab |-> ab, act |-> <<0>>] : s2 \in {0, 1}, ab \in {0, 1}}
DoFit == \E t \in T, w \in Ts, u \in Us :
   LET mem == Mem(c, st, [tr |-> <<t>>])
       ready == Len(mem) > c.init
       due == ready /\ st.cnt % c.delay = 0
   IN IF ~ready
      THEN LET e == [op |-> "fit", tr |-> <<t>>, fits |-> <<>>, nx |-> [ids |-> <<>>, acts |-> <<>>, lp |-> <<>>, same |-> 1], steps |-> 0, clips |-> 0,
                     w |-> st.w, u |-> st.u, wn |-> st.w, un |-> st.u, grad |-> <<>>, dir |-> 0, al |-> 0]
               r == Apply(c, st, e)
           IN Assert(r.bad = {}, <<"own warm up rejected", r.bad>>) /\ st' = r.s /\ acts' = acts
      ELSE \E k \in 1..Len(mem) :
           LET m == mem[k]
               z == Idx(c, m.s2)
               a == <<Clip(st.tu[1][z][1], -V, V)>>
               y == Target(c, st, m, a, 0, V)
               W == Rep(c.nM, w)
               U == IF due THEN <<u>> ELSE st.u
               g == [x \in 1..2 |-> <<Grad(c, W, <<m.id>>, x, 1)>>]
               f(q) == [i \in 1..c.nM |-> [m |-> i, ids |-> <<m.id>>, acts |-> <<<<0>>>>, y |-> <<q>>]]
               e(q, s) == [op |-> "fit", tr |-> <<t>>, fits |-> f(q), nx |-> [ids |-> <<m.s2>>, acts |-> <<a>>, lp |-> <<0>>, same |-> 1], steps |-> s,
                           clips |-> 0, w |-> W, u |-> U, wn |-> W, un |-> U, grad |-> g, dir |-> 0, al |-> 0]
               one == IF due THEN 1 ELSE 0
               r == Apply(c, st, e(y, one))
           IN /\ Assert(r.bad = {}, <<"own fit rejected", r.bad>>)
              /\ Assert("Target" \in Apply(c, st, e(y + V \div 8, one)).bad, "wrong target accepted")
              /\ Assert("ActorUpdatedWhenDue" \in Apply(c, st, e(y, 1 - one)).bad, "wrong actor update accepted")
              /\ st' = r.s /\ acts' = acts + one
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED c /\ DoFit
Between == \A k \in 1..c.nM : \A z \in 1..2 : \A d \in 1..2 :
              /\ st.tw[k][z][d] >= MinS({x[z][d] : x \in Ts}) - 8
              /\ st.tw[k][z][d] <= Max2(0, -MinS({-x[z][d] : x \in Ts}))
Copy == (c.tau = 8 /\ st.cnt > 0) => st.tw = st.w /\ st.tu = st.u
Delay == acts = (st.cnt + c.delay - 1) \div c.delay
=============================================================================
