--------------------------------- MODULE Serial ---------------------------------
(* Saving, loading and copying of objects.  An object is a tree: c its class, pl   *)
(* the number of times it was completed after a load, a its registered attributes: *)
(* m the method, f whether it is only part of full saves, k the kind of its value   *)
(* (n none, v plain value v, o an object, l a list of objects; the objects in o).    *)
(* The state holds all live objects and the content of all files.                    *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Nil(x) == [m |-> x.m, f |-> x.f, k |-> "n", v |-> <<>>, o |-> <<>>]
\* what is found in a file after saving the object
RECURSIVE Img(_, _)
Img(x, full) ==
    [c |-> x.c, pl |-> 1,
     a |-> [j \in 1..Len(x.a) |->
              LET y == x.a[j]
              IN IF y.m = "none" \/ y.k = "n" \/ (y.f = 1 /\ ~full) THEN Nil(y)
                 ELSE [y EXCEPT !.o = [q \in 1..Len(y.o) |-> Img(y.o[q], full)]]]]
\* replace the value of attribute j of the object reached by the path (pairs: attribute, position)
RECURSIVE SetAt(_, _, _, _)
SetAt(x, path, j, y) ==
    IF path = <<>> THEN [x EXCEPT !.a[j] = y]
    ELSE LET p == Head(path) IN [x EXCEPT !.a[p[1]].o[p[2]] = SetAt(@, Tail(path), j, y)]
Start(c) == [objs |-> <<>>, files |-> [f \in 1..c.files |-> <<>>]]
Model(s, e) ==
    CASE e.op = "new"  -> [s EXCEPT !.objs = Append(@, e.tree)]
      [] e.op = "set"  -> [s EXCEPT !.objs[e.d] = SetAt(@, e.path, e.j, e.y)]
      [] e.op = "save" -> [s EXCEPT !.files[e.f] = <<Img(s.objs[e.d], e.full = 1)>>]
      [] e.op = "load" -> [s EXCEPT !.objs = Append(@, s.files[e.f][1])]
      [] e.op = "copy" -> [s EXCEPT !.objs = Append(@, s.objs[e.d])]
      [] OTHER -> s
\* e.all: the content of all live objects after the operation
Apply(c, s, e) ==
    IF e.op = "exc" THEN R(s, {"UnexpectedException"})
    ELSE IF e.op = "missing" THEN R(s, Chk(e.raised = 1, "LoadingNothingIsAnError"))
    ELSE IF e.op = "end" THEN R(s, {})
    ELSE LET n == Model(s, e)
             k == IF e.op \in {"load", "copy", "new"} THEN Len(n.objs) ELSE 0
         IN R(n, Chk(Len(e.all) = Len(n.objs), "Objects")
                 \cup (IF Len(e.all) # Len(n.objs) THEN {}
                       ELSE Chk(k = 0 \/ e.all[k] = n.objs[k], IF e.op = "load" THEN "LoadReturnsWhatWasSaved" ELSE "CopyIsEqual")
                            \cup Chk(\A d \in 1..Len(n.objs) : d # k => e.all[d] = n.objs[d], "OtherObjectsUntouched")))
=============================================================================
