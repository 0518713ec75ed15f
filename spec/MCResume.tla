-------------------------------- MODULE MCResume --------------------------------
(* A concrete agent (a value w that acts, a memory m needed for learning, saved only  *)
(* by full saves) refines Resume: the trace operators never complain about it.         *)
EXTENDS Resume, TLC
CONSTANTS Depth, MaxO, Forget      \* Forget: components lost by (even full) saves; {} for the design
VARIABLES ag, fl, s, n, bad
A0 == [w |-> 1, m |-> 0]
Act(a, sd) == (a.w * 3 + sd) % 11
Lrn(a, sd) == [w |-> (a.w * 2 + a.m + sd) % 11, m |-> (a.m + sd + 1) % 7]
Store(a, full) == [w |-> IF "w" \in Forget THEN 1 ELSE a.w, m |-> IF "m" \in Forget \/ ~full THEN 0 ELSE a.m]
Do(e) == LET r == Apply([x |-> 0], s, e) IN s' = r.s /\ bad' = (bad \cup r.bad)
Init == ag = <<A0>> /\ fl = <<>> /\ n = 0 /\ bad = {} /\ s = Apply([x |-> 0], Start([x |-> 0]), [op |-> "new"]).s
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E d \in 1..Len(ag), sd \in 1..2 :
                 \/ /\ Do([op |-> "learn", d |-> d, sd |-> sd, x |-> <<Act(ag[d], sd), Act(Lrn(ag[d], sd), 0)>>])
                    /\ ag' = [ag EXCEPT ![d] = Lrn(@, sd)] /\ fl' = fl
                 \/ Do([op |-> "eval", d |-> d, sd |-> sd, x |-> <<Act(ag[d], sd)>>]) /\ ag' = ag /\ fl' = fl
           \/ \E d \in 1..Len(ag), full \in 0..1 : Len(fl) < 2 /\ Do([op |-> "save", d |-> d, full |-> full]) /\ fl' = Append(fl, Store(ag[d], full = 1)) /\ ag' = ag
           \/ \E f \in 1..Len(fl) : Len(ag) < MaxO /\ Do([op |-> "load", f |-> f]) /\ ag' = Append(ag, fl[f]) /\ fl' = fl
           \/ \E d \in 1..Len(ag) : Len(ag) < MaxO /\ Do([op |-> "copy", d |-> d]) /\ ag' = Append(ag, ag[d]) /\ fl' = fl
NoAlarm == bad = {}
=============================================================================
