------------------------------ MODULE MCMultiEnv ------------------------------
(* The pipe protocol: requests are sent to the selected copies, workers process    *)
(* them in any interleaving, replies are collected in the order of the copies.     *)
(* Whatever the schedule, the collected result is that of the masked operation,    *)
(* and no reply is left in a pipe.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MaxOps
VARIABLES x, req, rep, pc, i, mask, act, got, ops, hist
vars == <<x, req, rep, pc, i, mask, act, got, ops, hist>>
E == 1..N
Init == x = [j \in E |-> 0] /\ req = [j \in E |-> <<>>] /\ rep = [j \in E |-> <<>>] /\ pc = "idle" /\ i = 1 /\ mask = {}
        /\ act = [j \in E |-> 0] /\ got = [j \in E |-> 0] /\ ops = 0 /\ hist = [j \in E |-> 0]
Begin == pc = "idle" /\ ops < MaxOps /\ \E m \in SUBSET E, a \in [E -> {1, 2}] :
            mask' = m /\ act' = a /\ pc' = "send" /\ i' = 1 /\ ops' = ops + 1
            /\ hist' = [j \in E |-> IF j \in m THEN 3 * hist[j] + a[j] ELSE hist[j]] /\ UNCHANGED <<x, req, rep, got>>
Send == pc = "send" /\ IF i > N THEN pc' = "recv" /\ i' = 1 /\ UNCHANGED <<req>>
        ELSE i' = i + 1 /\ pc' = pc /\ req' = IF i \in mask THEN [req EXCEPT ![i] = Append(@, act[i])] ELSE req
Work(j) == req[j] # <<>> /\ x' = [x EXCEPT ![j] = 3 * @ + Head(req[j])] /\ req' = [req EXCEPT ![j] = Tail(@)]
           /\ rep' = [rep EXCEPT ![j] = Append(@, x'[j])] /\ UNCHANGED <<pc, i, mask, act, got, ops, hist>>
Recv == pc = "recv" /\ IF i > N THEN pc' = "idle" /\ i' = 1 /\ UNCHANGED <<rep, got>>
        ELSE IF i \in mask THEN rep[i] # <<>> /\ got' = [got EXCEPT ![i] = Head(rep[i])] /\ rep' = [rep EXCEPT ![i] = Tail(@)] /\ i' = i + 1 /\ pc' = pc
        ELSE i' = i + 1 /\ pc' = pc /\ UNCHANGED <<rep, got>>
Next == Begin \/ (Send /\ UNCHANGED <<x, rep, mask, act, got, ops, hist>>) \/ (\E j \in E : Work(j))
        \/ (Recv /\ UNCHANGED <<x, req, mask, act, ops, hist>>) \/ (pc = "idle" /\ ops = MaxOps /\ UNCHANGED vars)
Routed == pc = "idle" => got = hist /\ x = hist /\ \A j \in E : req[j] = <<>> /\ rep[j] = <<>>
=============================================================================
