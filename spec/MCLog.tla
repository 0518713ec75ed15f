---------------------------------- MODULE MCLog ----------------------------------
(* Design: with loggers that append, the file of a name and seed holds exactly the values  *)
(* logged for them since the last logger that did not append first wrote it, whatever other *)
(* seeds and directories do; the file of the best agent holds the best of its loggers.      *)
EXTENDS Log
CONSTANTS Depth, MaxL, Seeds
VARIABLES s, h, v
\* h[k]: what the property says the file k holds, kept without the loggers' memory
Cfg == [k |-> "log"]
Opens == [op : {"open"}, d : {"x", "y"}, seed : Seeds, append : {0, 1}, con : {0}, cl : {10}, fl : {10}]
Init == s = Start(Cfg) /\ h = None /\ v = 0
SeedsD == {-1, 1}
K(l, n) == Key(s.ls[l], n, -1, ".npy")
OpenL == \E e \in Opens : Len(s.ls) < MaxL /\ s' = LogNext(s, e) /\ UNCHANGED <<h, v>>
\* only the newest logger of a directory and seed writes
Newest(l) == \A m \in (l + 1)..Len(s.ls) : ~(s.ls[m].d = s.ls[l].d /\ s.ls[m].seed = s.ls[l].seed)
Write == \E l \in 1..Len(s.ls), n \in {"J", "R"} :
            /\ Newest(l)
            /\ v' = v + 1
            /\ s' = LogNext(s, [op |-> "values", l |-> l, v |-> <<<<n, v>>>>])
            /\ h' = Put(h, K(l, n), (IF s.ls[l].dict = None \/ n \notin DOMAIN s.ls[l].dict THEN <<>> ELSE Get(h, K(l, n))) \o <<v>>)
Next == TLCGet("level") <= Depth /\ (OpenL \/ Write)
Faithful == s.fs = h
Distinct == \A j, k \in DOMAIN s.fs : Path(j) = Path(k) => j = k
AppendKeeps == \A l \in 1..Len(s.ls) : Newest(l) => \A n \in DOMAIN s.ls[l].dict : s.ls[l].dict[n] = Get(h, K(l, n))
=============================================================================
