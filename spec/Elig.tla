--------------------------------- MODULE Elig ---------------------------------
(* Eligibility traces: SARSA(lambda) and Q(lambda) on tables, SARSA(lambda) and    *)
(* true online SARSA(lambda) with linear features.  A table is the case of one-hot *)
(* features.  Weights and traces are functions [action][feature]; weights on the   *)
(* grid 1/SQ (re-read from the implementation after each update), traces on 1/SE   *)
(* (kept by the specification: they are not part of the observable behaviour).     *)
(* c.alg, c.tr, c.nS, c.nA, c.nF, c.phi, c.g, c.lam (16ths), c.a (16ths)           *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
SQ == 1024
SE == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
None == 1999999999
Zero(c) == [a \in 1..c.nA |-> [f \in 1..c.nF |-> 0]]
Start(c) == [w |-> Zero(c), e |-> Zero(c), qold |-> None, pol |-> 0]
RECURSIVE Dot(_, _, _)
Dot(u, v, k) == IF k = 0 THEN 0 ELSE u[k] * v[k] + Dot(u, v, k - 1)
Q(c, w, s, a) == Dot(w[a], c.phi[s], c.nF)
MaxQ(c, w, s) == CHOOSE x \in {Q(c, w, s, a) : a \in 1..c.nA} : \A a \in 1..c.nA : x >= Q(c, w, s, a)
\* gamma * lambda * x
GL(c, x) == (c.g * c.lam * x) \div 256
Phi(c, s, a, b, f) == IF a = b THEN c.phi[s][f] ELSE 0
Map(c, F(_, _)) == [b \in 1..c.nA |-> [f \in 1..c.nF |-> F(b, f)]]

NextQ(c, s, e) == IF e.ab = 1 THEN 0 ELSE IF c.alg = "qlambda" THEN MaxQ(c, s.w, e.s2) ELSE Q(c, s.w, e.s2, e.na)

TraceAfterVisit(c, s, e) ==
    LET D(b, f) == GL(c, s.e[b][f])
        dot == Dot(s.e[e.a], c.phi[e.s], c.nF)
        gain == (c.a * (SE - GL(c, dot))) \div 16
        V(b, f) == CASE c.alg = "true" -> D(b, f) + gain * Phi(c, e.s, e.a, b, f)
                     [] c.alg # "true" /\ c.tr = "replacing" -> IF Phi(c, e.s, e.a, b, f) = 1 THEN SE ELSE D(b, f)
                     [] OTHER -> D(b, f) + SE * Phi(c, e.s, e.a, b, f)
    IN Map(c, V)

Weights(c, s, e) ==
    LET tr == TraceAfterVisit(c, s, e)
        cur == Q(c, s.w, e.s, e.a)
        base == IF c.alg = "true" /\ s.qold # None THEN s.qold ELSE cur
        delta == e.r * SQ + (c.g * NextQ(c, s, e)) \div 16 - base
        V(b, f) == IF c.alg = "true"
                   THEN s.w[b][f] + (delta * tr[b][f]) \div SE + ((c.a * (base - cur)) \div 16) * Phi(c, e.s, e.a, b, f)
                   ELSE s.w[b][f] + (c.a * ((delta * tr[b][f]) \div SE)) \div 16
    IN Map(c, V)
Tol(c) == IF c.alg = "true" THEN 16 ELSE 3

Apply(c, s, e) ==
    CASE e.op = "start" -> R([s EXCEPT !.e = Zero(c), !.qold = None], {})
      [] e.op = "fit" ->
           IF c.alg # "qlambda" /\ ~(e.na \in 1..c.nA) THEN R(s, {"NextActionChosenByPolicy"})
           ELSE LET w == Weights(c, s, e)
                IN R([s EXCEPT !.w = e.w, !.e = TraceAfterVisit(c, s, e), !.qold = NextQ(c, s, e)],
                     Chk(\A b \in 1..c.nA : \A f \in 1..c.nF : Abs(w[b][f] - e.w[b][f]) <= Tol(c), "TraceUpdate")
                     \cup Chk(\A b \in 1..c.nA : \A f \in 1..c.nF : w[b][f] = s.w[b][f] /\ s.e[b][f] = 0 /\ Phi(c, e.s, e.a, b, f) = 0
                                                                   => e.w[b][f] = s.w[b][f], "NotEligibleUntouched"))
      [] e.op = "draw" -> R(s, Chk(e.a \in 1..c.nA /\ (e.na # 0 => e.a = e.na), "PendingActionUsed"))
      [] e.op = "init" -> R([s EXCEPT !.w = e.w], {})
      \* saving and loading keeps the weights and, with them, the running traces
      [] e.op = "same" -> R(s, Chk(e.w = s.w, "SavedAndLoadedWeights"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
