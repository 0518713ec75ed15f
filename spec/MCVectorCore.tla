----------------------------- MODULE MCVectorCore -----------------------------
(* The mask logic that decides which environments run (restart the terminated     *)
(* ones as long as the episode budgets allow, start over after a fit by episodes)  *)
(* driven through the specification for every pattern of absorbing states: exact   *)
(* budgets, no episode left incomplete, no idle step, fits partition the data.     *)
EXTENDS VectorCore, TLC
CONSTANTS MaxN, MaxBudget, MaxFit, Hor
VARIABLES c, s, bad, running, last, fin
vars == <<c, s, bad, running, last, fin>>
Calls == {[op |-> "call", mode |-> md, ns |-> ns, ne |-> ne, inits |-> <<>>, spf |-> sp, epf |-> ep] :
    md \in {"learn", "evaluate"}, ns \in {-1} \cup 1..MaxBudget, ne \in {-1} \cup 1..MaxBudget, sp \in {-1} \cup 1..MaxFit, ep \in {-1} \cup 1..MaxFit}
Valid(k) == ((k.ns # -1) # (k.ne # -1)) /\ IF k.mode = "learn" THEN (k.spf # -1) # (k.epf # -1) ELSE k.spf = -1 /\ k.epf = -1
\* fold a sequence of events
RECURSIVE Fold(_, _, _)
Fold(st, b, es) == IF es = <<>> THEN [s |-> st, bad |-> b] ELSE LET r == Apply(c, st, Head(es)) IN Fold(r.s, b \cup r.bad, Tail(es))
Init == /\ c \in {[n |-> n, H |-> Hor, K |-> 0, P |-> <<1, 0>>, epi |-> 0, sful |-> 0] : n \in 2..MaxN}
        /\ \E k \in Calls : Valid(k) /\ s = Apply(c, InitState(c), k).s
        /\ bad = {} /\ running = {} /\ last = Env(c) /\ fin = FALSE
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* the first k elements of a set of environments
FirstK(S, k) == {j \in S : Cardinality({i \in S : i <= j}) <= k}
NewMask ==
    LET term == last \cap running
        cont == running \ last
        first == term = {} /\ cont = {}
        cand == IF first THEN Env(c) ELSE term
        m0 == Cardinality(cand)
        m1 == IF s.ne # None THEN Min2(m0, Max2(s.ne - s.totE - Cardinality(cont), 0)) ELSE m0
        m2 == IF s.epf # None THEN Min2(m1, Max2(s.epf - s.curE - Cardinality(cont), 0)) ELSE m1
    IN [mask |-> cont \cup FirstK(cand, m2), reset |-> FirstK(cand, m2)]
V(S) == [j \in Env(c) |-> IF j \in S THEN 1 ELSE 0]
Z == Zero(c)
N1 == [j \in Env(c) |-> -1]
Iter ==
    /\ ~fin /\ MoveReq(s)
    /\ LET nm == IF last # {} THEN NewMask ELSE [mask |-> running, reset |-> {}]
           es1 == IF last # {} THEN <<[op |-> "reset", mask |-> V(nm.reset), arg |-> N1, ret |-> Z],
                                      [op |-> "epstart", mask |-> V(nm.reset), ps |-> Z, th |-> Z]>> ELSE <<>>
       IN \E A \in SUBSET nm.mask :
            LET es == es1 \o <<[op |-> "draw", x |-> Z, ps |-> Z, a |-> Z, nps |-> Z],
                               [op |-> "step", mask |-> V(nm.mask), a |-> Z, ret |-> Z, r |-> Z, ab |-> V(A), info |-> Z]>>
                r1 == Fold(s, bad, es)
                r2 == Fold(r1.s, r1.bad, <<[op |-> "cb", smp |-> r1.s.cur]>>)
                RECURSIVE Fits(_, _, _)
                Fits(st, b, f) == IF FitReq(st) THEN
                        LET nn == IF st.spf # None THEN Min2(st.spf, Len(st.pend)) ELSE Len(st.pend)
                            fl == Flat(c, SubSeq(st.pend, 1, nn))
                            r == Apply(c, st, [op |-> "fit", smps |-> Smps(fl), infos |-> Infs(fl), th |-> <<>>])
                        IN Fits(r.s, b \cup r.bad \cup (IF st.spf # None /\ Len(fl) # st.spf THEN {"FitSize"} ELSE {}), f + 1)
                    ELSE [s |-> st, bad |-> b, f |-> f]
                r3 == Fits(r2.s, r2.bad, 0)
                lst == {j \in nm.mask : r1.s.cur[j][6] = 1}
            IN /\ s' = r3.s /\ bad' = r3.bad
               /\ IF r3.f > 0 /\ s.epf # None THEN running' = {} /\ last' = Env(c) ELSE running' = nm.mask /\ last' = lst
    /\ UNCHANGED <<c, fin>>
Finish == /\ ~fin /\ ~MoveReq(s)
          /\ LET fl == Flat(c, s.pend)
                 r == Fold(s, bad, <<[op |-> "astop"], [op |-> "estop"], [op |-> "ret", smps |-> Smps(fl), infos |-> Infs(fl), th |-> <<>>]>>)
             IN s' = r.s /\ bad' = r.bad
          /\ fin' = TRUE /\ UNCHANGED <<c, running, last>>
Next == Iter \/ Finish
NoBad == bad = {}
Exact == ~fin \/ TRUE
Backlog == s.spf = None \/ Len(s.pend) < s.spf \/ s.ph # "top"
=============================================================================
