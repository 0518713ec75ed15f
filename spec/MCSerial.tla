-------------------------------- MODULE MCSerial --------------------------------
(* All sequences of at most Depth operations starting from two small trees.          *)
EXTENDS Serial, TLC, Json
CONSTANTS Depth, MaxO, Emit
VARIABLES s, ops, n
V(m, f, x) == [m |-> m, f |-> f, k |-> "v", v |-> <<x>>, o |-> <<>>]
Ob(m, f, x) == [m |-> m, f |-> f, k |-> "o", v |-> <<>>, o |-> <<x>>]
Ls(m, f, x) == [m |-> m, f |-> f, k |-> "l", v |-> <<>>, o |-> x]
Leaf(x) == [c |-> 1, pl |-> 0, a |-> <<V("primitive", 0, x), V("numpy", 1, x + 1)>>]
T1 == [c |-> 2, pl |-> 0, a |-> <<V("pickle", 0, 5), V("none", 0, 6), Ob("mushroom", 0, Leaf(10)), Ob("mushroom", 1, Leaf(20))>>]
T2 == [c |-> 2, pl |-> 0, a |-> <<V("torch", 1, 7), Ls("mushroom", 0, <<Leaf(30), Leaf(40)>>), Ls("mushroom", 0, <<>>)>>]
Ops == {[op |-> "save", d |-> d, f |-> f, full |-> b] : d \in 1..Len(s.objs), f \in 1..2, b \in 0..1}
       \cup (IF Len(s.objs) >= MaxO THEN {} ELSE
             {[op |-> "load", f |-> f] : f \in {g \in 1..2 : s.files[g] # <<>>}}
             \cup {[op |-> "copy", d |-> d] : d \in 1..Len(s.objs)})
       \cup {[op |-> "set", d |-> d, path |-> <<>>, j |-> 1, y |-> V(s.objs[d].a[1].m, s.objs[d].a[1].f, 100 + n)] : d \in 1..Len(s.objs)}
Init == s = [Start([files |-> 2]) EXCEPT !.objs = <<T1, T2>>] /\ ops = <<>> /\ n = 0
Next == /\ Len(ops) < Depth
        /\ \E o \in Ops : /\ s' = Model(s, o) /\ ops' = Append(ops, o) /\ n' = n + 1
                          /\ (Emit /\ Len(ops') = Depth /\ \E k \in 1..Len(ops') : ops'[k].op = "load") => PrintT("BEHAVIOUR " \o ToJson(ops'))
RECURSIVE Completed(_)
Completed(x) == x.pl = 1 /\ \A j \in 1..Len(x.a) : \A q \in 1..Len(x.a[j].o) : Completed(x.a[j].o[q])
Laws == /\ \A f \in 1..2 : s.files[f] # <<>> => Completed(s.files[f][1]) /\ Img(s.files[f][1], TRUE) = s.files[f][1]
        /\ \A d \in 1..Len(s.objs) : /\ Img(Img(s.objs[d], TRUE), FALSE) = Img(s.objs[d], FALSE)
                                     /\ Img(Img(s.objs[d], FALSE), TRUE) = Img(s.objs[d], FALSE)
=============================================================================
