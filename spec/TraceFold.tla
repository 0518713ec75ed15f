------------------------------- MODULE TraceFold -------------------------------
(* Generic validation of recorded traces.  A trace is folded through            *)
(* Apply(cfg, state, event) -> [s |-> next state, bad |-> violated clauses],     *)
(* starting from Start(cfg).  The verdict is total: each trace ends with an      *)
(* ACCEPT, or with a REJECT naming the event and the violated clauses.  A trace  *)
(* may restrict the judged clauses (field only) to those of one property.        *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
CONSTANTS Start(_), Apply(_, _, _), T
VARIABLES t, i, s
Judged(tr, bad) == IF tr.only = <<>> THEN bad ELSE bad \cap {tr.only[k] : k \in 1..Len(tr.only)}
TInit == t \in 1..Len(T) /\ i = 0 /\ s = Start(T[t].cfg)
TNext == /\ i < Len(T[t].ev)
         /\ LET r == Apply(T[t].cfg, s, T[t].ev[i + 1])
                bad == Judged(T[t], r.bad)
            IN /\ s' = r.s
               /\ IF bad # {}
                  THEN PrintT(<<"REJECT", T[t].id, i + 1, bad>>) /\ i' = Len(T[t].ev) + 1
                  ELSE i' = i + 1 /\ (i + 1 = Len(T[t].ev) => PrintT(<<"ACCEPT", T[t].id>>))
         /\ t' = t
=============================================================================
