------------------------------ MODULE SeqReplay ------------------------------
(* Replay memory returning sequences: a sampled sequence is a contiguous run of   *)
(* one trajectory, all of it still stored, with the previous actions of its steps.*)
(* Transition: <<state, action, reward, next state, absorbing, last, ps, nps>>.   *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Start(c) == <<>>                                  \* all insertions since the last reset
Lo(c, h) == IF Len(h) > c.max THEN Len(h) - c.max + 1 ELSE 1
Min(a, b) == IF a < b THEN a ELSE b
\* first stored step of the trajectory that contains step k
RECURSIVE First(_, _, _)
First(c, h, k) == IF k = Lo(c, h) \/ h[k - 1][6] = 1 THEN k ELSE First(c, h, k - 1)

\* x: [rows |-> <<<<s, a, ns, ps, nps, prev action>>, ...>>, r, ab, last]
MatchAt(c, h, x, k) ==
    LET L == Len(x.rows)
        f == First(c, h, k)
        b == k - L + 1
        want == Min(c.trunc, k - f + 1)
        wrapped == Len(h) > c.max
        prev(j) == IF j > 1 /\ h[j - 1][6] = 0 THEN h[j - 1][2] ELSE 0
    IN /\ L >= 1 /\ b >= f /\ L <= c.trunc
       /\ (wrapped \/ L = want)
       /\ x.r = h[k][3] /\ x.ab = h[k][5] /\ x.last = h[k][6]
       /\ \A j \in 1..L : LET g == h[b + j - 1] IN
            /\ x.rows[j][1] = g[1] /\ x.rows[j][2] = g[2] /\ x.rows[j][3] = g[4]
            /\ x.rows[j][4] = g[7] /\ x.rows[j][5] = g[8]
            /\ IF j > 1 THEN x.rows[j][6] = h[b + j - 2][2]
               ELSE IF wrapped THEN x.rows[j][6] \in {0, prev(b)}
               ELSE x.rows[j][6] = prev(b)
Match(c, h, x) == \E k \in Lo(c, h)..Len(h) : MatchAt(c, h, x, k)
Ends(c, h) == {h[k][1] : k \in Lo(c, h)..Len(h)}
GotEnds(e) == {IF Len(e.seqs[j].rows) = 0 THEN -7 ELSE e.seqs[j].rows[Len(e.seqs[j].rows)][1] : j \in 1..Len(e.seqs)}
Stored(c, h) == IF Len(h) > c.max THEN c.max ELSE Len(h)
Apply(c, h, e) ==
    CASE e.op = "add" -> LET h2 == h \o e.smps IN R(h2, Chk(e.size = Stored(c, h2), "SizeIsBounded"))
      [] e.op = "get" -> R(h, Chk(\A j \in 1..Len(e.seqs) : Match(c, h, e.seqs[j]), "RunOfOneStoredTrajectory")
                              \cup Chk(e.pad = 1, "ZeroPaddingBeyondLength")
                              \cup Chk(Len(e.seqs) = e.asked, "RequestedBatchSize")
                              \cup Chk(GotEnds(e) = Ends(c, h), "EveryStoredStepReachable"))
      [] e.op = "reset" -> R(<<>>, Chk(e.size = 0, "SizeIsBounded"))
      [] e.op = "exc" -> R(h, {"UnexpectedException"})
=============================================================================
