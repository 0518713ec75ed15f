-------------------------------- MODULE Dataset --------------------------------
(* Collections of transitions as values: appending, clearing, views, selection,  *)
(* concatenation and episode statistics.  The state is the sequence of all live   *)
(* datasets, each one a sequence of transitions                                   *)
(*   <<state, action, reward, next state, absorbing, last, pstate, next pstate, info>>  *)
(* After every operation the real content of ALL live datasets is compared with   *)
(* the model: an operation on one dataset never changes another one.              *)
EXTENDS Integers, Sequences, FiniteSets

NoVal == -1
Chk(b, name) == IF b THEN {} ELSE {name}
Scale == 16384

Start(c) == <<>>
R(s, bad) == [s |-> s, bad |-> bad]

Last(x) == x[6] = 1
SetLast(q) == IF q = <<>> THEN q ELSE [q EXCEPT ![Len(q)] = [q[Len(q)] EXCEPT ![6] = 1]]

\* ------------------------------------------------------------ episode structure
LastIdx(q) == {k \in 1..Len(q) : Last(q[k])}
Complete(q) == IF LastIdx(q) = {} THEN <<>>
               ELSE SubSeq(q, 1, CHOOSE k \in LastIdx(q) : \A j \in LastIdx(q) : j <= k)
RECURSIVE Episodes(_, _, _)
\* split q (from index k, current episode acc) into episodes, the trailing partial one included
Episodes(q, k, acc) ==
    IF k > Len(q) THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
    ELSE IF Last(q[k]) THEN <<Append(acc, q[k])>> \o Episodes(q, k + 1, <<>>)
         ELSE Episodes(q, k + 1, Append(acc, q[k]))
Eps(q) == Episodes(q, 1, <<>>)
NComplete(q) == Cardinality(LastIdx(q))

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
\* discount 1/gd (gd = 0 stands for a null discount); values on the grid 1/Scale
Disc(gd, k) == IF gd = 0 THEN (IF k = 0 THEN Scale ELSE 0) ELSE Scale \div Pow(gd, k)
RECURSIVE JFrom(_, _, _)
JFrom(ep, gd, k) == IF k > Len(ep) THEN 0 ELSE ep[k][3] * Disc(gd, k - 1) + JFrom(ep, gd, k + 1)
J(ep, gd) == JFrom(ep, gd, 1)
Js(q, gd) == LET es == Eps(q) IN [k \in 1..Len(es) |-> J(es[k], gd)]

MinS(q) == CHOOSE x \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : x <= q[k]
MaxS(q) == CHOOSE x \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : x >= q[k]
RECURSIVE SumS(_)
SumS(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumS(Tail(q))
\* rank-based: twice the median
NLess(q, x) == Cardinality({k \in 1..Len(q) : q[k] < x})
NLeq(q, x) == Cardinality({k \in 1..Len(q) : q[k] <= x})
Kth(q, k) == CHOOSE x \in {q[j] : j \in 1..Len(q)} : NLess(q, x) < k /\ NLeq(q, x) >= k
Median2(q) == LET n == Len(q) IN IF n % 2 = 1 THEN 2 * Kth(q, (n + 1) \div 2) ELSE Kth(q, n \div 2) + Kth(q, n \div 2 + 1)

\* ------------------------------------------------------------ operations
Take(q, idx) == [k \in 1..Len(idx) |-> q[idx[k]]]
Concat(a, b) == SetLast(a) \o b
FirstN(q, n) == LET es == Eps(q)
                    RECURSIVE Cat(_)
                    Cat(k) == IF k > n THEN <<>> ELSE es[k] \o Cat(k + 1)
                IN Cat(1)

Agree(s, e) == IF e.all = s THEN {} ELSE {"ContentPreserved"}
\* the operation itself gives model s2; compare with what is really there
Done(s2, e, bad) == R(s2, bad \cup Agree(s2, e))

Range(q) == {q[k] : k \in 1..Len(q)}

Stats(s, e) ==
    LET q == s[e.d]
        es == Eps(q)
        js == Js(q, e.gd)
        cj == Js(Complete(q), e.gd)
    IN Chk(e.len = Len(q), "Length")
       \cup (IF q = <<>> THEN {} ELSE Chk(e.nep = Len(es), "EpisodeCount"))
       \cup Chk(e.lens = [k \in 1..NComplete(q) |-> Len(es[k])], "EpisodesLength")
       \cup Chk(e.init = [k \in 1..Len(es) |-> es[k][1][1]], "InitialStates")
       \cup Chk(e.js = (IF q = <<>> THEN <<0>> ELSE js), "DiscountedReturnPerEpisode")
       \cup Chk(e.und = (IF q = <<>> THEN <<0>> ELSE Js(q, 1)), "UndiscountedReturnPerEpisode")
       \cup Chk(e.dis = (IF q = <<>> THEN <<0>> ELSE Js(q, e.g0)), "DiscountedReturnPerEpisode")
       \cup (IF cj = <<>> THEN Chk(e.met = <<0, 0, 0, 0, 0>>, "MetricsOfCompleteEpisodes")
             ELSE Chk(e.met = <<MinS(cj), MaxS(cj), SumS(cj), Median2(cj), Len(cj)>>, "MetricsOfCompleteEpisodes"))

Apply(c, s, e) ==
    CASE e.op = "new"    -> Done(Append(s, <<>>), e, {})
      [] e.op = "append" -> Done([s EXCEPT ![e.d] = Append(@, e.smp)], e, {})
      [] e.op = "clear"  -> Done([s EXCEPT ![e.d] = <<>>], e, {})
      [] e.op = "take"   -> Done(Append(s, Take(s[e.d], e.idx)), e, {})
      [] e.op = "add"    -> Done(Append(s, Concat(s[e.a], s[e.b])), e, {})
      [] e.op = "first"  -> Done(Append(s, FirstN(s[e.d], e.n)), e, {})
      [] e.op = "rand"   -> LET q == e.all[Len(e.all)]
                            IN R(Append(s, q), Chk(Len(e.all) = Len(s) + 1 /\ SubSeq(e.all, 1, Len(s)) = s, "ContentPreserved")
                                               \cup Chk(Len(q) = e.n /\ Range(q) \subseteq Range(s[e.d]), "RandomSubset"))
      [] e.op = "load"   -> Done(Append(s, e.smps), e, {})           \* built from arrays
      [] e.op = "conv"   -> Done(Append(s, s[e.d]), e, Chk(e.kinds = 1, "ConvertedArrayKind"))
      [] e.op = "poke"   -> \* the arrays of one dataset are modified in place: the independent ones do not notice
                            Done([s EXCEPT ![e.d] = IF Len(e.all) = Len(s) THEN e.all[e.d] ELSE @], e, {})
      [] e.op = "item"   -> R(s, Chk(e.smp = SubSeq(s[e.d][e.k], 1, 6), "ItemAccess"))
      [] e.op = "stats"  -> R(s, Stats(s, e))
      [] e.op = "exc"    -> R(s, {"UnexpectedException"})
      [] e.op = "end"    -> R(s, {})
=============================================================================
