------------------------------ MODULE MCSumTree ------------------------------
(* The array sum tree: internal nodes are the sums of their children after every   *)
(* insertion and update, for every capacity (also not a power of two); walking the *)
(* tree maps exactly p values of every prefix sum to a leaf of priority p,         *)
(* whichever child is picked at ties.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxCap, Prios, MaxOps
VARIABLES cap, tree, idx, full, ops
vars == <<cap, tree, idx, full, ops>>
\* 0-based node k is tree[k + 1]
RECURSIVE Prop(_, _, _)
Prop(t, d, k) == LET p == (k - 1) \div 2 t2 == [t EXCEPT ![p + 1] = @ + d] IN IF p = 0 THEN t2 ELSE Prop(t2, d, p)
Set(t, k, p) == Prop([t EXCEPT ![k + 1] = p], p - t[k + 1], k)
Init == cap \in 2..MaxCap /\ tree = [k \in 1..(2 * cap - 1) |-> 0] /\ idx = 0 /\ full = FALSE /\ ops = 0
Ins == \E p \in Prios : tree' = Set(tree, idx + cap - 1, p) /\ idx' = (idx + 1) % cap /\ full' = (full \/ idx + 1 = cap)
Upd == \E p \in Prios, k \in 0..(cap - 1) : (full \/ k < idx) /\ tree' = Set(tree, k + cap - 1, p) /\ UNCHANGED <<idx, full>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED cap /\ (Ins \/ Upd)
SumsOk == \A k \in 0..(cap - 2) : tree[k + 1] = tree[2 * k + 2] + tree[2 * k + 3]
\* leaves reachable with prefix value v (0..total-1 unit cells); a set because of the ties
RECURSIVE Leaves(_, _)
Leaves(v, k) == IF 2 * k + 1 >= 2 * cap - 1 THEN <<<<k, 1>>>>
    ELSE LET l == 2 * k + 1 r == 2 * k + 2 IN
      IF tree[l + 1] = tree[r + 1]
      THEN LET w == IF v >= tree[l + 1] THEN v - tree[l + 1] ELSE v
               A == Leaves(w, l) B == Leaves(w, r)
           IN [j \in 1..Len(A) |-> <<A[j][1], 2 * A[j][2]>>] \o [j \in 1..Len(B) |-> <<B[j][1], 2 * B[j][2]>>]
      ELSE IF v < tree[l + 1] THEN Leaves(v, l) ELSE Leaves(v - tree[l + 1], r)
\* mass of a leaf in units of 1/64 per unit cell
RECURSIVE Mass(_, _)
RECURSIVE In(_, _)
In(q, k) == IF q = <<>> THEN 0 ELSE (IF Head(q)[1] = k THEN 64 \div Head(q)[2] ELSE 0) + In(Tail(q), k)
Mass(k, v) == IF v < 0 THEN 0 ELSE In(Leaves(v, 0), k) + Mass(k, v - 1)
Proportional == \A k \in (cap - 1)..(2 * cap - 2) : Mass(k, tree[1] - 1) = 64 * tree[k + 1]
=============================================================================
