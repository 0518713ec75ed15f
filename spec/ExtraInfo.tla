------------------------------- MODULE ExtraInfo -------------------------------
(* Side information reported with each step: one (possibly nested) dictionary per *)
(* step and per environment, exposed as one array per key.  The model of a        *)
(* collection is the sequence of its steps; a step is a sequence over environments *)
(* of the sequence of values of a fixed list of keys, Miss when not reported.      *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
Miss == 2000000001
Start(c) == <<>>
R(s, bad) == [s |-> s, bad |-> bad]
Take(q, idx) == [k \in 1..Len(idx) |-> q[idx[k]]]

\* environment-major flattening of the steps selected by the mask
RECURSIVE Col(_, _, _, _)
Col(q, mask, j, k) == IF k > Len(q) THEN <<>>
                      ELSE (IF mask[k][j] = 1 THEN <<<<q[k][j]>>>> ELSE <<>>) \o Col(q, mask, j, k + 1)
RECURSIVE FlattenFrom(_, _, _, _)
FlattenFrom(q, mask, j, n) == IF j > n THEN <<>> ELSE Col(q, mask, j, 1) \o FlattenFrom(q, mask, j + 1, n)
Flatten(q, mask, n) == FlattenFrom(q, mask, 1, n)

Done(s2, e, bad) == R(s2, bad \cup Chk(e.all = s2, "InfoAlignedWithSteps"))
Apply(c, s, e) ==
    CASE e.op = "new"     -> Done(Append(s, <<>>), e, {})
      [] e.op = "append"  -> Done([s EXCEPT ![e.d] = Append(@, e.row)], e, {})
      [] e.op = "parse"   -> Done(s, e, Chk(e.kind = 1, "ParsedArrayKind"))
      [] e.op = "take"    -> Done(Append(s, Take(s[e.d], e.idx)), e, {})
      [] e.op = "copy"    -> Done(Append(s, s[e.d]), e, {})
      [] e.op = "add"     -> Done(Append(s, s[e.a] \o s[e.b]), e, {})
      [] e.op = "clear"   -> Done([s EXCEPT ![e.d] = <<>>], e, {})
      [] e.op = "flatten" -> Done(Append(s, Flatten(s[e.d], e.mask, e.n)), e, {})
      [] e.op = "write"   -> Done(s, e, Chk(e.refused = 1, "ReadOnly"))
      [] e.op = "exc"     -> R(s, {"UnexpectedException"})
      [] e.op = "end"     -> R(s, {})
=============================================================================
