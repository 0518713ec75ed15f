----------------------------------- MODULE Log -----------------------------------
(* Loggers, collecting callbacks, data buffers and video recordings.                    *)
(* A file of a logger is identified by its directory, name, seed (-1: none), epoch       *)
(* (-1: none, -2: best) and kind; its content is a sequence of texts; loggers keep, per name, the values logged so far.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
None == [x \in {} |-> <<>>]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Key(l, name, ep, kind) == [d |-> l.d, n |-> name, seed |-> l.seed, ep |-> ep, k |-> kind]
Suffix(k) == (IF k.seed = -1 THEN "" ELSE "-" \o ToString(k.seed))
             \o (CASE k.ep = -1 -> "" [] k.ep = -2 -> "-best" [] OTHER -> "-" \o ToString(k.ep))
Path(k) == k.d \o "/" \o k.n \o Suffix(k) \o k.k
Lv(x) == CASE x = "DEBUG" -> 10 [] x = "INFO" -> 20 [] x = "WARNING" -> 30 [] x = "ERROR" -> 40 [] x = "CRITICAL" -> 50
Start(c) == [fs |-> None, ls |-> <<>>, q |-> <<>>, on |-> 1, n |-> 0, cur |-> <<>>]
--------------------------------------------------------------------------------
\* loggers
Open(s, e) ==
    LET l == [d |-> e.d, seed |-> e.seed, dict |-> None, best |-> -1000000, con |-> e.con, cl |-> e.cl, fl |-> e.fl]
        mine == {k \in DOMAIN s.fs : k.d = e.d /\ k.seed = e.seed /\ k.k = ".npy"}
        names == {k.n : k \in mine}
        old == [x \in names |-> s.fs[Key(l, x, -1, ".npy")]]
        l2 == IF e.append = 1 THEN [l EXCEPT !.dict = old] ELSE l
    IN [s EXCEPT !.ls = Append(@, l2), !.fs = IF e.con = 1 THEN Put(@, Key(l, e.d, -1, ".log"), <<>>) ELSE @]
Values(s, e) ==       \* e.v: pairs of a name and a value
    LET RECURSIVE G(_, _)
        G(x, i) == IF i > Len(e.v) THEN x
                   ELSE LET l == x.ls[e.l]
                            w == Append(Get(l.dict, e.v[i][1]), e.v[i][2])
                        IN G([x EXCEPT !.ls[e.l].dict = Put(@, e.v[i][1], w), !.fs = Put(@, Key(l, e.v[i][1], -1, ".npy"), w)], i + 1)
    IN G(s, 1)
Line(s, e) ==         \* a message e.m with level e.lv
    LET l == s.ls[e.l]
        k == Key(l, l.d, -1, ".log")
    IN IF l.con = 1 /\ Lv(e.lv) >= l.fl THEN [s EXCEPT !.fs[k] = Append(@, e.lv \o "|" \o e.m)] ELSE s
LogNext(s, e) ==
    CASE e.op = "open" -> Open(s, e)
      [] e.op = "values" -> Values(s, e)
      [] e.op = "array" -> [s EXCEPT !.fs = Put(@, Key(s.ls[e.l], e.n, -1, ".npy"), e.x)]
      [] e.op = "agent" -> [s EXCEPT !.fs = Put(@, Key(s.ls[e.l], "agent", e.ep, ".msh"), e.x)]
      [] e.op = "best" -> IF e.J > s.ls[e.l].best
                          THEN [s EXCEPT !.ls[e.l].best = e.J, !.fs = Put(@, Key(s.ls[e.l], "agent", -2, ".msh"), e.x)] ELSE s
      [] e.op = "dataset" -> [s EXCEPT !.fs = Put(@, Key(s.ls[e.l], "dataset", -1, ".pkl"), e.x)]
      [] e.op = "say" -> Line(s, e)
Listing(s) == {<<Path(k), s.fs[k]>> : k \in DOMAIN s.fs}
Seen(e) == {<<e.files[i][1], e.files[i][2]>> : i \in 1..Len(e.files)}
Shown(s, e) == IF e.op = "say" /\ Lv(e.lv) >= s.ls[e.l].cl THEN <<e.lv \o "|" \o e.m>> ELSE <<>>
LogApply(s, e) ==
    LET n == LogNext(s, e)
    IN R(n, Chk(Seen(e) = Listing(n) /\ Len(e.files) = Cardinality(Listing(n)), "FilesHoldWhatWasLogged")
            \cup Chk(e.out = Shown(s, e), "Console"))
--------------------------------------------------------------------------------
\* collected data: s.q is what must be collected so far
Close(q) == IF q = <<>> THEN q ELSE [q EXCEPT ![Len(q)][2] = 1]
Max(x) == CHOOSE m \in {x[i] : i \in 1..Len(x)} : \A i \in 1..Len(x) : x[i] <= m
Last(q, k) == IF k < 0 \/ Len(q) <= k THEN q ELSE SubSeq(q, Len(q) - k + 1, Len(q))
Collected(c, s, e) ==
    CASE c.k = "dataset" -> Close(s.q) \o e.x
      [] c.k = "buffer" -> IF s.on = 1 THEN Last(s.q \o e.x, c.len) ELSE s.q
      [] c.k = "maxq" -> Append(s.q, <<Max(e.x)>>)
      [] OTHER -> Append(s.q, e.x)
--------------------------------------------------------------------------------
Apply(c, s, e) ==
    CASE e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
      [] e.op = "collect" -> R([s EXCEPT !.q = Collected(c, s, e)], {})
      [] e.op = "get" -> R(s, Chk(e.x = s.q, "CollectedData"))
      [] e.op = "size" -> R(s, Chk(e.x = Len(s.q), "BufferSize"))
      [] e.op = "clean" -> R([s EXCEPT !.q = <<>>], {})
      [] e.op = "track" -> R([s EXCEPT !.on = e.on], {})
      \* data obtained earlier is as it was
      [] e.op = "kept" -> R(s, Chk(e.x = e.y, "EarlierDataNotChanged"))
      \* videos: frames are grey levels; each recording is a file of its own
      [] e.op = "frame" -> R([s EXCEPT !.cur = Append(@, e.x)], {})
      [] e.op = "stop" ->
            LET name == c.name \o (IF s.n = 0 THEN "" ELSE "-" \o ToString(s.n)) \o ".mp4"
                n == [s EXCEPT !.fs = Put(@, name, s.cur), !.cur = <<>>, !.n = @ + 1]
            IN R(n, Chk({e.files[i][1] : i \in 1..Len(e.files)} = DOMAIN n.fs, "VideoFiles")
                    \cup Chk(\A i \in 1..Len(e.files) : e.files[i][1] \in DOMAIN n.fs =>
                              LET f == n.fs[e.files[i][1]] IN
                              /\ Len(f) = Len(e.files[i][2])
                              /\ \A j \in 1..Len(f) : \A h \in 1..3 : LET z == f[j][h] - e.files[i][2][j][h] IN z <= 25 /\ z >= -25, "VideoFrames"))
      [] OTHER -> LogApply(s, e)
=============================================================================
