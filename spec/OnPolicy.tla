-------------------------------- MODULE OnPolicy --------------------------------
(* Advantage estimation (generalised, bootstrapped, Monte Carlo) and the updates of    *)
(* A2C, PPO and TRPO, for a policy N(theta x, 1) with one parameter and a critic given  *)
(* as a value per sample.  Rewards, values, features: integers; actions, c.g (discount),*)
(* c.l (lambda), c.lr, c.ent, c.h: quarters, quarters, quarters, 64ths, 8ths, integers. *)
(* Advantages, theta, gradients: 1e-3 (theta 1e-4 in events).                           *)
(* c.ex[k] = 1e3 exp((k - 65)/16): the only outside knowledge                           *)
EXTENDS Integers, Sequences, FiniteSets

Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Rd(a, b) == IF a >= 0 THEN ((2 * a) + b) \div (2 * b) ELSE -((((-2) * a) + b) \div (2 * b))
RECURSIVE ISq(_, _)
ISq(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE ISq(n, y)
Sqrt(n) == IF n <= 0 THEN 0 ELSE ISq(n, n)
Start(c) == [th |-> c.th]

\* ----------------------------------------------------------------- advantages, 1e-3
N(e) == Len(e.r)
VN(c, e, k) == IF e.ab[k] = 1 THEN 0 ELSE Rd(1000 * c.g * e.vn[k], 4)
RECURSIVE GaeFrom(_, _, _)
GaeFrom(c, e, k) ==
    IF k > N(e) THEN <<>>
    ELSE LET rest == GaeFrom(c, e, k + 1)
             d == (1000 * (e.r[k] - e.v[k])) + VN(c, e, k)
         IN <<IF e.last[k] = 1 \/ k = N(e) THEN d ELSE d + Rd(c.g * c.l * rest[1], 16)>> \o rest
Boot(c, e) == [k \in 1..N(e) |-> (1000 * (e.r[k] - e.v[k])) + VN(c, e, k)]
RECURSIVE McFrom(_, _, _)
McFrom(c, e, k) ==
    IF k > N(e) THEN <<>>
    ELSE LET rest == McFrom(c, e, k + 1)
         IN <<(1000 * e.r[k]) + (IF e.last[k] = 1 \/ k = N(e) THEN VN(c, e, k) ELSE Rd(c.g * rest[1], 4))>> \o rest
Mc(c, e) == LET q == McFrom(c, e, 1) IN [k \in 1..N(e) |-> q[k] - (1000 * e.v[k])]
Adv(c, e, how) == CASE how = "gae" -> GaeFrom(c, e, 1) [] how = "boot" -> Boot(c, e) [] OTHER -> Mc(c, e)
Tol(x) == 4 + (Abs(x) \div 2000)
Same(got, want) == Len(got) = Len(want) /\ \A k \in 1..Len(want) : Near(got[k], want[k], Tol(want[k]))
Targets(e, adv) == [k \in 1..N(e) |-> adv[k] + (1000 * e.v[k])]
\* standardised over the dataset
Std(adv) == LET n == Len(adv)
                m == Rd(SumTo(adv, n), n)
            IN [m |-> m, s |-> Sqrt(Rd(SumTo([k \in 1..n |-> Rd(adv[k] - m, 10) * Rd(adv[k] - m, 10)], n), n - 1))]
Norm(adv) == LET z == Std(adv) IN [k \in 1..Len(adv) |-> IF z.s = 0 THEN 0 ELSE Rd(100 * (adv[k] - z.m), z.s)]

\* ----------------------------------------------------------------- policy, theta 1e-3
Dlt(e, th, i) == (250 * e.a[i]) - (th * e.x[i])
\* log ratio, 1e-3
LR(e, th0, th, i) == Rd(Rd((th - th0) * e.x[i], 1) * ((500 * e.a[i]) - ((th + th0) * e.x[i])), 2000)
Exp(c, y) == LET z == (16 * Max2(-3990, Min2(3990, y))) + 64000
                 k == z \div 1000
                 f == z % 1000
             IN Rd((c.ex[k + 1] * (1000 - f)) + (c.ex[k + 2] * f), 1000)
Ratio(c, e, th0, th, i) == Exp(c, LR(e, th0, th, i))
Edge(c, e, th0, th, i) == Near(Ratio(c, e, th0, th, i), 1000 + c.eps, 8) \/ Near(Ratio(c, e, th0, th, i), 1000 - c.eps, 8)
Act(c, e, th0, th, an, i) == IF an[i] >= 0 THEN Ratio(c, e, th0, th, i) <= 1000 + c.eps ELSE Ratio(c, e, th0, th, i) >= 1000 - c.eps
G1(c, e, th0, th, an, i) == IF Act(c, e, th0, th, an, i)
                            THEN Rd(Rd(Rd(Ratio(c, e, th0, th, i) * an[i], 1000) * Dlt(e, th, i), 1000) * e.x[i], 1) ELSE 0
Ent(c) == Rd(1000 * c.ent * c.h, 8)
\* one step of the optimizer on batch b (a sequence of sample numbers)
PStep(c, e, th0, th, an, b) ==
    LET g == Rd(SumTo([j \in 1..Len(b) |-> G1(c, e, th0, th, an, b[j])], Len(b)), Len(b)) + Ent(c)
    IN th + Rd(c.lr * g, 64)
RECURSIVE PRun(_, _, _, _, _, _)
PRun(c, e, th0, th, an, j) == IF j > Len(e.bs) THEN th ELSE PRun(c, e, th0, PStep(c, e, th0, th, an, e.bs[j]), an, j + 1)
\* is some sample too close to the edge of the clipping range, or the ratio out of range, on the way?
RECURSIVE Vague(_, _, _, _, _, _)
Vague(c, e, th0, th, an, j) ==
    IF j > Len(e.bs) THEN FALSE
    ELSE \/ Abs(th) > 6000
         \/ \E i \in 1..Len(e.bs[j]) : Edge(c, e, th0, th, e.bs[j][i]) \/ Abs(LR(e, th0, th, e.bs[j][i])) > 3500
         \/ Vague(c, e, th0, PStep(c, e, th0, th, an, e.bs[j]), an, j + 1)
\* the batches of one epoch partition the samples, all but the last of the given size
RECURSIVE Epochs(_, _, _, _)
Epochs(c, n, bs, k) ==
    IF k = 0 THEN bs = <<>>
    ELSE LET m == (n + c.bsz - 1) \div c.bsz
         IN /\ Len(bs) >= m
            /\ \A j \in 1..m : Len(bs[j]) = Min2(c.bsz, n - ((j - 1) * c.bsz))
            /\ UNION {{bs[j][i] : i \in 1..Len(bs[j])} : j \in 1..m} = 1..n
            /\ Epochs(c, n, SubSeq(bs, m + 1, Len(bs)), k - 1)

\* A2C: one step on the whole dataset, gradient clipped to c.clip (1e-3; 0: none)
A2c(c, e, th, adv) ==
    LET n == N(e)
        g == Rd(SumTo([i \in 1..n |-> Rd(adv[i] * Dlt(e, th, i), 1000) * e.x[i]], n), n) + Ent(c)
        gc == IF c.clip = 0 \/ Abs(g) <= c.clip THEN g ELSE IF g > 0 THEN c.clip ELSE -c.clip
    IN th + Rd(c.lr * gc, 64)
\* TRPO: objective over the dataset, 1e-3, without the entropy
Obj(c, e, th0, th, an) == Rd(SumTo([i \in 1..N(e) |-> Rd(Ratio(c, e, th0, th, i) * an[i], 1000)], N(e)), N(e))
X2(e) == SumTo([i \in 1..N(e) |-> e.x[i] * e.x[i]], N(e))
TGrad(c, e, th, an) == Rd(SumTo([i \in 1..N(e) |-> Rd(an[i] * Dlt(e, th, i), 1000) * e.x[i]], N(e)), N(e)) + Ent(c)
\* quadratic form of a change d (1e-4) of theta: d^2 (mean x^2 + 1/100) / 2, 1e-4;  the full step has c.kl
QF(e, d) == Rd(Rd(d * d, 1000) * Rd((100 * X2(e)) + N(e), N(e)), 2000)
Kl(e, d) == Rd(Rd(d * d, 1000) * Rd(100 * X2(e), N(e)), 2000)
RECURSIVE Pow4(_)
Pow4(k) == IF k = 0 THEN 1 ELSE 4 * Pow4(k - 1)
TrpoOK(c, e, an) ==
    LET d == e.th1 - e.th0
        g == TGrad(c, e, Rd(e.th0, 10), an)
        gain == Obj(c, e, Rd(e.th0, 10), Rd(e.th1, 10), an) + Rd(Rd(c.ent * c.h * d, 8), 10)
    IN d = 0 \/ Abs(d) > 30000 \/
       /\ Kl(e, d) <= Rd(3 * c.kl, 2) + 2
       /\ gain >= -6
       /\ Abs(g) <= 15 \/ ((d > 0) <=> (g > 0))
       /\ \E k \in 0..(c.ls - 1) : LET f == Rd(c.kl, Pow4(k)) IN f < 40 \/ Near(QF(e, d), f, 3 + (f \div 25))

Apply(c, s, e) ==
    CASE e.op = "adv" -> LET w == Adv(c, e, e.how)
                         IN R(s, Chk(Same(e.adv, w), "Advantage") \cup Chk(Same(e.tgt, Targets(e, w)), "ValueTarget"))
      [] e.op = "fit" ->
            LET adv == Adv(c, e, IF c.k = "a2c" THEN "mc" ELSE "gae")
                an == Norm(adv)
                th0 == Rd(e.th0, 10)
            IN R([s EXCEPT !.th = e.th1],
                 Chk(e.th0 = s.th, "PolicyChangesOnlyInFit")
                 \cup Chk(Same(e.tgt, Targets(e, adv)), "ValueTarget")
                 \cup Chk(e.vfits = 1, "CriticFittedOncePerFit")
                 \cup (CASE c.k = "a2c" -> LET w == 10 * A2c(c, e, th0, adv)
                                           IN Chk(Near(e.th1, w, 60 + (Abs(w - e.th0) \div 100)), "PolicyUpdate")
                         [] c.k = "ppo" ->
                               Chk(Epochs(c, N(e), e.bs, c.ep), "EverySampleOncePerEpoch")
                               \cup (IF ~Epochs(c, N(e), e.bs, c.ep) \/ Std(adv).s < 40 \/ Vague(c, e, th0, th0, an, 1) THEN {}
                                     ELSE LET w == 10 * PRun(c, e, th0, th0, an, 1)
                                          IN Chk(Near(e.th1, w, 100 + (Abs(w - e.th0) \div 25)), "PolicyUpdate"))
                         [] OTHER -> IF Std(adv).s < 40 THEN {} ELSE Chk(TrpoOK(c, e, an), "TrustRegion")))
      [] e.op = "epfit" ->          \* episodic PPO: e.r the returns, e.a (quarters) the parameters of the episodes
            LET adv == [k \in 1..N(e) |-> 1000 * e.r[k]]
                an == Norm(adv)
                th0 == Rd(e.th0, 10)
            IN R([s EXCEPT !.th = e.th1],
                 Chk(e.th0 = s.th, "PolicyChangesOnlyInFit")
                 \cup Chk(Epochs(c, N(e), e.bs, c.ep), "EverySampleOncePerEpoch")
                 \cup (IF ~Epochs(c, N(e), e.bs, c.ep) \/ Std(adv).s < 40 \/ Vague(c, e, th0, th0, an, 1) THEN {}
                       ELSE LET w == 10 * PRun(c, e, th0, th0, an, 1) IN Chk(Near(e.th1, w, 100 + (Abs(w - e.th0) \div 25)), "DistributionUpdate")))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
