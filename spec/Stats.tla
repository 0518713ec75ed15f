----------------------------------- MODULE Stats -----------------------------------
(* Running statistics and preprocessors, in 1e-6.                                        *)
EXTENDS Fix
Idx(c) == 1..c.d
Const(c, v) == [i \in Idx(c) |-> v]
Mean(c, B) == [i \in Idx(c) |-> Rd(SumTo([j \in 1..Len(B) |-> B[j][i]], Len(B)), Len(B))]
\* buf: values in the window, oldest first; ok: all updates so far were single values
Fresh(c) == [n |-> 1, m |-> Const(c, 0), s |-> Const(c, One), buf |-> <<Const(c, 0)>>, ok |-> 1]
First(c, i) == IF i = <<>> THEN Const(c, 0) ELSE i
Start(c) == IF c.k \in {"exp", "win"} THEN [Fresh(c) EXCEPT !.m = First(c, c.init), !.buf = <<First(c, c.init)>>] ELSE Fresh(c)
\* weight b/n of a batch of b values, at least c.alpha
Blend(c, n, b, x, y) == IF b * 1000 >= c.alpha * n THEN x + Rd(b * (y - x), n)
                        ELSE x + Mp(y - x, 1000 * c.alpha)
Stand(c, s, B) ==
    LET v == Mean(c, B)
        n == s.n + Len(B)
        m == [i \in Idx(c) |-> Blend(c, n, Len(B), s.m[i], v[i])]
    IN [s EXCEPT !.n = n, !.m = <<>> \o [i \in Idx(c) |-> m[i]], !.s = [i \in Idx(c) |-> s.s[i] + Mp(v[i] - s.m[i], v[i] - m[i])],
                 !.ok = IF Len(B) = 1 THEN @ ELSE 0]
RECURSIVE Decay(_, _, _, _)
Decay(c, m, B, j) == IF j > Len(B) THEN m ELSE Decay(c, [i \in Idx(c) |-> m[i] + Mp(B[j][i] - m[i], 1000 * c.alpha)], B, j + 1)
Last(q, k) == IF Len(q) <= k THEN q ELSE SubSeq(q, Len(q) - k + 1, Len(q))
Upd(c, s, B) == CASE c.k \in {"std", "pre", "minmax"} -> Stand(c, s, B)
                  [] c.k = "exp" -> [s EXCEPT !.m = Decay(c, s.m, B, 1)]
                  [] c.k = "win" -> [s EXCEPT !.buf = Last(s.buf \o B, c.w)]
Cur(c, s) == IF c.k = "win" THEN Mean(c, s.buf) ELSE s.m
Std(c, s, i) == SqrtP(Rd(s.s[i], s.n))
Norm(c, s, o, i) == Clip(Dv(o[i] - s.m[i], Std(c, s, i)), -c.clip, c.clip)
Out(c, s, o, i) == IF c.k = "minmax" /\ c.fin[i] = 1 THEN Dv((2 * o[i]) - c.hi[i] - c.lo[i], c.hi[i] - c.lo[i]) ELSE Norm(c, s, o, i)
Checked(c, s, i) == s.ok = 1 \/ (c.k = "minmax" /\ c.fin[i] = 1)
SeqNear(c, x, y, t) == Len(x) = c.d /\ \A i \in Idx(c) : Near(x[i], y[i], t)
Apply(c, s, e) ==
    CASE e.op = "upd" -> R(Upd(c, s, e.B), Chk(e.same = 1, "InputNotModified"))
      [] e.op = "mean" -> R(s, Chk(SeqNear(c, e.x, Cur(c, s), 60), "Mean"))
      [] e.op = "std" -> R(s, Chk(s.ok = 0 \/ SeqNear(c, e.x, [i \in Idx(c) |-> Std(c, s, i)], 200), "StandardDeviation"))
      [] e.op = "pre" -> R(s, Chk(Len(e.x) = c.d /\ \A i \in Idx(c) : Checked(c, s, i) => Near(e.x[i], Out(c, s, e.o, i), 400 + (Abs(e.x[i]) \div 500)), "Preprocessed")
                              \cup Chk(e.same = 1, "ObservationNotModified"))
      [] e.op = "reset" -> R(IF c.k \in {"exp", "win"} THEN [Fresh(c) EXCEPT !.m = First(c, e.init), !.buf = <<First(c, e.init)>>] ELSE Fresh(c), {})
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
