--------------------------------- MODULE Resume ---------------------------------
(* Saving, loading and copying agents.  The logical state of an agent is the history *)
(* of what was done with it (learning and evaluating, with a seed each); what an       *)
(* agent does is a function of its history and of the seed, whatever mixture of        *)
(* saves, loads and copies led to it.  A partial save keeps everything needed to       *)
(* act (evaluate) but not all that is needed to go on learning identically.            *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Start(c) == [h |-> <<>>, files |-> <<>>, seen |-> {}]
\* done before with the same history and seed: the same must happen
Same(s, h, k, sd, x) == \A r \in s.seen : (r.h = h /\ r.k = k /\ r.sd = sd) => r.x = x
See(s, h, k, sd, x) == s.seen \cup {[h |-> h, k |-> k, sd |-> sd, x |-> x]}
Apply(c, s, e) ==
    CASE e.op = "new"   -> R([s EXCEPT !.h = Append(@, [h |-> <<>>, cut |-> 0])], {})
      [] e.op = "load"  -> R([s EXCEPT !.h = Append(@, s.files[e.f])], {})
      [] e.op = "copy"  -> R([s EXCEPT !.h = Append(@, s.h[e.d])], {})
      [] e.op = "save"  -> R([s EXCEPT !.files = Append(@, [h |-> s.h[e.d].h, cut |-> IF e.full = 1 THEN s.h[e.d].cut ELSE 1])], {})
      [] e.op = "eval"  -> LET y == s.h[e.d]
                           IN R([s EXCEPT !.h[e.d].h = Append(@, <<2, e.sd>>), !.seen = See(s, y.h, 2, e.sd, e.x)],
                                Chk(Same(s, y.h, 2, e.sd, e.x), "SameHistorySameActions"))
      [] e.op = "learn" -> LET y == s.h[e.d]
                               k == IF y.cut = 1 THEN 3 ELSE 1
                           IN R([s EXCEPT !.h[e.d].h = Append(@, <<k, e.sd>>), !.seen = IF y.cut = 1 THEN @ ELSE See(s, y.h, 1, e.sd, e.x)],
                                Chk(y.cut = 1 \/ Same(s, y.h, 1, e.sd, e.x), "SameHistorySameLearning"))
      [] e.op = "exc"   -> R(s, {"UnexpectedException"})
      [] e.op = "end"   -> R(s, {})
=============================================================================
