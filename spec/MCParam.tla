-------------------------------- MODULE MCParam --------------------------------
(* Design of the schedules: monotone, never beyond the threshold or the bounds,      *)
(* independent across indices.                                                       *)
EXTENDS Param, TLC
CONSTANTS Depth
VARIABLES c, st, n, lastv
Base(k) == [k |-> k, a |-> 16, b |-> 4, n |-> 3, e |-> 1, lo |-> None, hi |-> None, t |-> 2, w |-> 2, m |-> 2]
Cfgs == {[Base(k) EXCEPT !.a = a, !.b = b, !.e = ex, !.lo = lo, !.hi = hi, !.m = m] : k \in {"const", "linear", "decay", "varinc", "vardec", "winvar"},
           a \in {8, 16}, b \in {4, 20}, ex \in {1, 2}, lo \in {None, 4}, hi \in {None, 12}, m \in {1, 2}}
\* the schedules of the library bound linear parameters by their threshold
Init == c \in {x \in Cfgs : x.k = "linear" => (x.lo = None /\ x.hi = None)} /\ st = Start(c) /\ n = 0 /\ lastv = [j \in 1..2 |-> None]
Value(x, e) == IF IsVar(c) THEN Clip(c, VarValue(c, x)) ELSE Clip(c, Sched(c, x.n + 1))
Step == \E i \in 1..2, t \in {-1, 2} :
          LET x == st[Ix(c, i)]
              v == Value(x, 0)
              e == [op |-> "call", i |-> i, x |-> t, f |-> 4, v |-> v]
              r == Apply(c, st, e)
          IN /\ Assert(r.bad = {}, <<"own value rejected", c, e>>)
             /\ st' = r.s
             /\ lastv' = [lastv EXCEPT ![Ix(c, i)] = v]
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED c /\ Step
InBounds == \A j \in 1..2 : lastv[j] # None =>
    /\ c.lo # None => lastv[j] >= (c.lo * VS) \div 16
    /\ c.hi # None => lastv[j] <= (c.hi * VS) \div 16
    /\ c.k = "linear" => (IF c.b >= c.a THEN lastv[j] <= (c.b * VS) \div 16 ELSE lastv[j] >= (c.b * VS) \div 16)
    /\ IsVar(c) => lastv[j] >= 0 /\ lastv[j] <= VS
=============================================================================
