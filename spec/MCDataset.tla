------------------------------- MODULE MCDataset -------------------------------
(* All sequences of at most Depth dataset operations on at most MaxD datasets.   *)
(* Algebraic laws are checked on every reachable state; complete sequences are    *)
(* emitted, with the content the model predicts after each operation, for replay. *)
EXTENDS Dataset, TLC, Json
CONSTANTS Depth, MaxD, MaxLen, Emit
VARIABLES s, n, hist
Smp(k, f) == <<10 * k + 1, 10 * k + 2, (k % 5) - 2, 10 * k + 3, IF f = 2 THEN 1 ELSE 0, IF f >= 1 THEN 1 ELSE 0, NoVal, NoVal, 10 * k + 4>>
Ds == 1..Len(s)
Ops ==
    {[op |-> "append", d |-> d, smp |-> Smp(n, f)] : d \in {x \in Ds : hist[x].owner = 1 /\ Len(s[x]) < MaxLen}, f \in 0..2}
    \cup {[op |-> "clear", d |-> d] : d \in {x \in Ds : hist[x].owner = 1 /\ s[x] # <<>>}}
    \cup (IF Len(s) >= MaxD THEN {} ELSE
          {[op |-> "take", d |-> d, idx |-> [k \in 1..(b - a + 1) |-> a + k - 1]] :
                d \in Ds, a \in 1..2, b \in 1..3}
          \cup {[op |-> "add", a |-> a, b |-> b] : a \in Ds, b \in Ds}
          \cup {[op |-> "first", d |-> d, n |-> k] : d \in Ds, k \in 1..2})
Legal(o) == CASE o.op = "take" -> Len(o.idx) >= 1 /\ o.idx[Len(o.idx)] <= Len(s[o.d])
              [] o.op = "add" -> Len(s[o.a]) + Len(s[o.b]) > 0 /\ Len(s[o.a]) + Len(s[o.b]) <= 6
              [] o.op = "first" -> o.n <= NComplete(s[o.d])
              [] OTHER -> TRUE
Model(o) == CASE o.op = "append" -> [s EXCEPT ![o.d] = Append(@, o.smp)]
              [] o.op = "clear" -> [s EXCEPT ![o.d] = <<>>]
              [] o.op = "take" -> Append(s, Take(s[o.d], o.idx))
              [] o.op = "add" -> Append(s, Concat(s[o.a], s[o.b]))
              [] o.op = "first" -> Append(s, FirstN(s[o.d], o.n))
VARIABLE ops
Init == /\ s = <<<<>>, <<>>>> /\ n = 1 /\ hist = <<[owner |-> 1], [owner |-> 1]>> /\ ops = <<>>
Next == /\ Len(ops) < Depth
        /\ \E o \in Ops : /\ Legal(o)
                          /\ s' = Model(o) /\ n' = n + 1
                          /\ hist' = IF Len(s') > Len(s) THEN Append(hist, [owner |-> 0]) ELSE hist
                          /\ ops' = Append(ops, [o |-> o, all |-> s'])
                          /\ (Emit /\ Len(ops') = Depth) => PrintT("BEHAVIOUR " \o ToJson(ops'))
\* ------------------------------------------------------------------ laws
RECURSIVE FlatE(_)
FlatE(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o FlatE(Tail(q))
Laws == \A d \in Ds : LET q == s[d] es == Eps(q) IN
          /\ FlatE(es) = q                                               \* episodes partition the dataset
          /\ \A k \in 1..(Len(es) - 1) : Last(es[k][Len(es[k])])
          /\ \A k \in 1..Len(es) : \A j \in 1..(Len(es[k]) - 1) : ~Last(es[k][j])
          /\ SumS(Js(q, 1)) = Scale * SumS([k \in 1..Len(q) |-> q[k][3]]) \* undiscounted returns add up to the reward
          /\ \A k \in 1..Len(q) : q[k][5] = 1 => Last(q[k])
          /\ \A k \in 1..NComplete(q) : FirstN(q, k) = SubSeq(q, 1, Len(FirstN(q, k))) /\ NComplete(FirstN(q, k)) = k
          /\ \A b \in Ds : /\ Len(Concat(q, s[b])) = Len(q) + Len(s[b])
                           /\ Len(Eps(Concat(q, s[b]))) = Len(es) + Len(Eps(s[b]))
                           /\ Js(Concat(q, s[b]), 2) = Js(q, 2) \o Js(s[b], 2)
=============================================================================
