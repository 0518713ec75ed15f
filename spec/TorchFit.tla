--------------------------------- MODULE TorchFit ---------------------------------
(* Fits of torch approximators: epochs, minibatches, gradient steps on the weighted mean    *)
(* loss of every batch, validation, early stopping, reinitialisation, training mode.        *)
(* A model is linear (outputs x inputs) with squared errors and stochastic gradient descent, *)
(* so every step is predictable; s.f[m] is the progress of the fit of model m.              *)
EXTENDS Fix
Inf == 2000000000
Idle == [ph |-> "idle", todo |-> {}, ls |-> 0, nb |-> 0, best |-> Inf, pc |-> 0, ep |-> 0, last |-> -1]
Start(c) == [w |-> c.w, f |-> [m \in 1..Len(c.w) |-> Idle], r |-> [z |-> 0]]
Dot(w, p) == SumTo([k \in 1..Len(p) |-> Mp(w[k], p[k])], Len(p))
\* outputs that take part in the loss of a sample
Outs(c, r, i) == IF c.q = 1 THEN {r.A[i] + 1} ELSE 1..Len(c.w[1])
Res(c, r, W, i, o, t) == Dot(W[o], r.X[i]) - r.Y[t][i][IF c.q = 1 THEN 1 ELSE o]
Wt(r, i) == IF r.wt = <<>> THEN One ELSE r.wt[i]
\* loss of sample i (mean over its outputs, sum over the targets)
SampleLoss(c, r, W, i) ==
    LET O == Outs(c, r, i)
        v == [o \in 1..Len(W) |-> IF o \in O THEN SumTo([t \in 1..Len(r.Y) |-> LET q == Res(c, r, W, i, o, t) IN Mp(q, q)], Len(r.Y)) ELSE 0]
    IN Rd(SumTo(v, Len(W)), Cardinality(O))
TotW(r, ids) == SumTo([k \in 1..Len(ids) |-> Wt(r, ids[k])], Len(ids))
Loss(c, r, W, ids) == Dv(SumTo([k \in 1..Len(ids) |-> Mp(Wt(r, ids[k]), SampleLoss(c, r, W, ids[k]))], Len(ids)), TotW(r, ids))
Step(c, r, W, ids) ==
    LET G(o, k) == Dv(SumTo([j \in 1..Len(ids) |-> LET i == ids[j] IN
                        IF o \in Outs(c, r, i)
                        THEN Mp(Wt(r, i), Mp(r.X[i][k], Rd(SumTo([t \in 1..Len(r.Y) |-> 2 * Res(c, r, W, i, o, t)], Len(r.Y)), Cardinality(Outs(c, r, i)))))
                        ELSE 0], Len(ids)), TotW(r, ids))
    IN <<>> \o [o \in 1..Len(W) |-> <<>> \o [k \in 1..Len(W[o]) |-> W[o][k] - Mp(c.lr, G(o, k))]]
Ids(e) == {e.ids[k] : k \in 1..Len(e.ids)}
Train(r) == 1..r.nt
Val(r) == (r.nt + 1)..Len(r.X)
Close == 60
\* end of an epoch with monitored loss l
Epoch(c, r, f, l, mean) ==
    LET lost == r.eps # -1 /\ f.best # Inf /\ Abs(f.best - l - r.eps) <= Close
        better == f.best = Inf \/ f.best - l > r.eps
        pc == IF better THEN 0 ELSE f.pc + 1
        g == [f EXCEPT !.todo = Train(r), !.ls = 0, !.nb = 0, !.ep = f.ep + 1, !.last = mean, !.pc = pc, !.best = IF better THEN l ELSE f.best]
        stop == (r.ne # -1 /\ g.ep >= r.ne) \/ (r.eps # -1 /\ g.pc >= r.pat)
    IN [g EXCEPT !.ph = IF lost THEN "lost" ELSE IF stop THEN "done" ELSE "train"]
Fwd(c, s, e) ==
    LET m == e.m
        f == s.f[m]
        r == s.r
        mean == Rd(f.ls + Loss(c, r, s.w[m], e.ids), f.nb + 1)
        left == f.todo \ Ids(e)
        size == IF c.bs = 0 THEN Cardinality(f.todo) ELSE Min2(c.bs, Cardinality(f.todo))
        bad == Chk(Len(e.ids) = Cardinality(Ids(e)) /\ Ids(e) \subseteq f.todo, "every-sample-once")
               \cup Chk(Len(e.ids) = size, "batch-size")
               \cup Chk(c.drop = 0 \/ e.tr = 1, "training-mode")
        l == Loss(c, r, s.w[m], e.ids)
        f1 == [f EXCEPT !.todo = left, !.ls = f.ls + l, !.nb = f.nb + 1]
        f2 == IF left # {} THEN f1
              ELSE IF r.eps # -1 /\ Val(r) # {} THEN [f1 EXCEPT !.ph = "val"]
              ELSE Epoch(c, r, f1, mean, mean)
    IN CASE f.ph = "train" -> R([s EXCEPT !.w[m] = Step(c, r, s.w[m], e.ids), !.f[m] = f2], bad)
         [] f.ph = "val" -> R([s EXCEPT !.f[m] = Epoch(c, r, f, l, Rd(f.ls, f.nb))], Chk(Ids(e) = Val(r), "validation-set"))
         [] f.ph = "lost" -> R(s, {})
         [] OTHER -> R(s, {"unexpected-epoch"})
Begin(c, s, e) ==
    LET r == [X |-> e.X, A |-> e.A, Y |-> e.Y, wt |-> e.wt, nt |-> e.nt, ne |-> e.ne, eps |-> e.eps, pat |-> e.pat]
        In(m) == \E k \in 1..Len(e.ms) : e.ms[k] = m
        f0 == [Idle EXCEPT !.ph = IF e.ne = 0 THEN "done" ELSE "train", !.todo = Train(r)]
    IN [s EXCEPT !.r = r,
                 !.f = <<>> \o [m \in 1..Len(s.w) |-> IF In(m) THEN f0 ELSE [Idle EXCEPT !.last = s.f[m].last]],
                 !.w = <<>> \o [m \in 1..Len(s.w) |-> IF In(m) /\ c.re = 1 THEN c.w0 ELSE s.w[m]]]
MatNear(a, b, t) == Len(a) = Len(b) /\ \A o \in 1..Len(a) : Len(a[o]) = Len(b[o]) /\ \A k \in 1..Len(a[o]) : Near(a[o][k], b[o][k], t)
EndOK(c, s, e) ==
    LET Lost(m) == s.f[m].ph = "lost"
    IN Chk(\A m \in 1..Len(s.w) : s.f[m].ph \in {"idle", "done", "lost"}, "epochs")
       \cup Chk(\A m \in 1..Len(s.w) : Lost(m) \/ MatNear(e.w[m], s.w[m], 400), "weights")
       \cup Chk(\A m \in 1..Len(s.w) : Lost(m) \/ s.f[m].ph = "idle" \/ s.f[m].ep = 0 \/ Near(e.loss[m], s.f[m].last, 400 + (s.f[m].last \div 500)), "last-loss")
       \cup Chk(c.drop = 0 \/ e.tr = 0, "training-mode")
Apply(c, s, e) ==
    CASE e.op = "begin" -> R(Begin(c, s, e), {})
      [] e.op = "fwd" -> Fwd(c, s, e)
      [] e.op = "end" -> R([s EXCEPT !.w = e.w], EndOK(c, s, e))
      [] e.op = "fixed" -> R(s, Chk(MatNear(e.w, s.w[e.m], 20), "weights") \cup Chk(c.drop = 0 \/ e.tr = 0, "training-mode"))
      [] e.op = "set" -> R([s EXCEPT !.w[e.m] = e.w], {})
      [] e.op = "same" -> R(s, Chk(e.same = 1, "caller-arrays"))
      [] e.op = "exc" -> R(s, {"exception"})
      [] OTHER -> R(s, {})
=============================================================================
