-------------------------------- MODULE PolGrad --------------------------------
(* Policy gradients (REINFORCE, GPOMDP, eNAC), classic actor-critics (StochasticAC,     *)
(* its average-reward form, COPDAC-Q) and gradient optimizers, for a policy             *)
(* N(w.x, 1).  Features, actions, rewards and (policy gradients) weights are integers;  *)
(* c.g: discount in halves; gradients 1e-3; everything of the actor-critics 1e-4.       *)
EXTENDS Integers, Sequences, FiniteSets

Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Rd(a, b) == IF a >= 0 THEN ((2 * a) + b) \div (2 * b) ELSE -((((-2) * a) + b) \div (2 * b))
Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] OTHER -> 1000
\* 10^n a / b, digit by digit, 0 < b < 2e8
RECURSIVE Dec(_, _, _)
Dec(a, b, n) == IF n = 0 THEN a \div b ELSE (Pow10(n) * (a \div b)) + Dec(10 * (a % b), b, n - 1)
FrL(a, b) == IF a >= 0 THEN Dec(a, b, 3) ELSE -Dec(-a, b, 3)
\* 1000 a / b for large a, b > 0
Fr(a, b) == IF a >= 0 THEN (1000 * (a \div b)) + Rd(1000 * (a % b), b) ELSE -((1000 * ((-a) \div b)) + Rd(1000 * ((-a) % b), b))
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Zero(n) == [k \in 1..n |-> 0]
Dot(u, v) == SumTo([k \in 1..Len(u) |-> u[k] * v[k]], Len(u))
K(c) == Len(c.w)
Start(c) == [w |-> c.w, v |-> Zero(K(c)), ev |-> Zero(K(c)), et |-> Zero(K(c)), om |-> Zero(K(c)), rb |-> 0, ok |-> TRUE,
             m |-> Zero(K(c)), vv |-> Zero(K(c)), t |-> 0]

\* ------------------------------------------------------------------ policy gradients
\* e.x[i][t]: features, e.a[i][t], e.r[i][t]: episode i, step t.  Discount c.g/2: rewards in units of 1/32
Disc(c, t) == Pow(c.g, t - 1) * Pow(2, 6 - t)
Score(s, e, i, t) == [k \in 1..Len(s.w) |-> e.x[i][t][k] * (e.a[i][t] - Dot(s.w, e.x[i][t]))]
NE(e) == Len(e.r)
NS(e, i) == Len(e.r[i])
J32(c, e, i) == SumTo([t \in 1..NS(e, i) |-> Disc(c, t) * e.r[i][t]], NS(e, i))
\* sum of the scores of the first t steps
Cum(s, e, i, t) == [k \in 1..Len(s.w) |-> SumTo([j \in 1..t |-> Score(s, e, i, j)[k]], t)]
\* variance-optimal baseline: the average of f weighted with the squares of g; average of g (f - baseline) as 1e-3 (f: 1/32)
Opt(g, f, n, m) ==
    LET den == SumTo([i \in 1..n |-> g[i] * g[i]], n)
        num == SumTo([i \in 1..n |-> g[i] * g[i] * f[i]], n)
        sg == SumTo(g, n)
        gf == SumTo([i \in 1..n |-> g[i] * f[i]], n)
    IN IF den = 0 THEN 0 ELSE Rd(Fr(gf, 32) - Rd(sg * Fr(num, den), 32), m)
Reinforce(c, s, e) ==
    LET S == [i \in 1..NE(e) |-> Cum(s, e, i, NS(e, i))]
        J == [i \in 1..NE(e) |-> J32(c, e, i)]
    IN [k \in 1..Len(s.w) |-> Opt([i \in 1..NE(e) |-> S[i][k]], J, NE(e), NE(e))]
RECURSIVE Pick(_, _, _)
Pick(e, t, i) == IF i = 0 THEN <<>> ELSE Pick(e, t, i - 1) \o (IF NS(e, i) >= t THEN <<i>> ELSE <<>>)
Gpomdp(c, s, e) ==
    [k \in 1..Len(s.w) |->
       SumTo([t \in 1..5 |-> LET P == Pick(e, t, NE(e))
                                 g == [j \in 1..Len(P) |-> Cum(s, e, P[j], t)[k]]
                                 f == [j \in 1..Len(P) |-> Disc(c, t) * e.r[P[j]][t]]
                             IN IF P = <<>> THEN 0 ELSE Opt(g, f, Len(P), NE(e))], 5)]
\* eNAC, one weight: least squares J ~ wt psi + v f, psi the discounted score; f one critic feature of the first state (c.cf = 0: 1)
Psi(c, s, e, i) == SumTo([t \in 1..NS(e, i) |-> Disc(c, t) * Score(s, e, i, t)[1]], NS(e, i))    \* 1/32
CF(c, e, i) == IF c.cf = 0 THEN 1 ELSE e.x[i][1][1] + c.cf
Max(a, b) == IF a >= b THEN a ELSE b
EnacOK(c, s, e) ==
    LET n == NE(e)
        p == [i \in 1..n |-> Psi(c, s, e, i)]
        j == [i \in 1..n |-> J32(c, e, i)]
        f == [i \in 1..n |-> CF(c, e, i)]
        pp == SumTo([i \in 1..n |-> p[i] * p[i]], n)
        pf == SumTo([i \in 1..n |-> p[i] * f[i]], n)
        ff == SumTo([i \in 1..n |-> f[i] * f[i]], n)
        pj == SumTo([i \in 1..n |-> p[i] * j[i]], n)
        fj == SumTo([i \in 1..n |-> f[i] * j[i]], n)
        det == (pp * ff) - (pf * pf)
    IN IF pp > 100000000 \div Max(ff, 1) \/ Abs(pj) > 100000000 \div Max(ff, 1) \/ Abs(pf) > 10000 \/ Abs(fj) > 100000000 \div Max(Abs(pf), 1) THEN TRUE
       ELSE IF det # 0 THEN LET w == FrL((pj * ff) - (pf * fj), det) IN Abs((pj * ff) - (pf * fj)) \div det > 200000 \/ Near(e.grad[1], w, 3 + (Abs(w) \div 10000))
       ELSE IF c.cf = 0 THEN LET w == Fr(32 * p[1] * SumTo(j, n), n * ((p[1] * p[1]) + 1024)) IN
                             Abs(p[1]) > 2000 \/ Near(e.grad[1], Rd(w, 32), 3 + (Abs(w) \div 10000))
       ELSE TRUE

\* ------------------------------------------------------------------ actor-critics, 1e-4
Mul(a, b) == Rd((a \div 100) * b, 100) + Rd((a % 100) * b, 10000)
Big(f) == \E k \in 1..Len(f) : Abs(f[k]) > 60000
Val(v, x) == Dot(v, x)
Sc(w, x, a) == [k \in 1..Len(w) |-> x[k] * ((10000 * a) - Dot(w, x))]
Lin(f, p, q) == [k \in 1..Len(f) |-> Rd(p * f[k], q)]
Add(f, g) == [k \in 1..Len(f) |-> f[k] + g[k]]
\* c.at/32, c.av/32, c.ar/32: learning rates; c.l/4: lambda
Sac(c, s, z) ==
    LET avg == c.k = "sacavg"
        vn == IF z.ab = 1 THEN 0 ELSE Val(s.v, z.xn)
        d == IF avg THEN (10000 * z.r) - s.rb + vn - Val(s.v, z.x) ELSE (10000 * z.r) + Rd(c.g * vn, 2) - Val(s.v, z.x)
        dec == IF avg THEN 2 * c.l ELSE c.g * c.l
        ev == Add(Lin(s.ev, dec, 8), [k \in 1..K(c) |-> 10000 * z.x[k]])
        et == Add(Lin(s.et, dec, 8), Sc(s.w, z.x, z.a))
        big == Abs(d) > 250000 \/ \E k \in 1..K(c) : Abs(ev[k]) > 150000 \/ Abs(et[k]) > 150000
    IN IF big THEN [s EXCEPT !.ok = FALSE]
       ELSE [s EXCEPT !.rb = s.rb + Rd(c.ar * d, 32), !.ev = ev, !.et = et,
                      !.v = Add(s.v, [k \in 1..K(c) |-> Mul(Rd(c.av * d, 32), ev[k])]),
                      !.w = Add(s.w, [k \in 1..K(c) |-> Mul(Rd(c.at * d, 32), et[k])])]
Cop(c, s, z) ==
    LET mu == Dot(s.w, z.x)
        dl == (10000 * z.a) - mu
        nu == [k \in 1..K(c) |-> dl * z.x[k]]
        big == Abs(dl) > 150000 \/ Big(s.om)
        q == Val(s.v, z.x) + SumTo([k \in 1..K(c) |-> Mul(s.om[k], nu[k])], K(c))
        d == (10000 * z.r) + (IF z.ab = 1 THEN 0 ELSE Rd(c.g * Val(s.v, z.xn), 2)) - q
    IN IF big \/ Abs(d) > 250000 THEN [s EXCEPT !.ok = FALSE]
       ELSE [s EXCEPT !.w = Add(s.w, [k \in 1..K(c) |-> Rd(c.at * Dot(s.om, z.x) * z.x[k], 32)]),
                      !.om = Add(s.om, [k \in 1..K(c) |-> Mul(Rd(c.ao * d, 32), nu[k])]),
                      !.v = Add(s.v, [k \in 1..K(c) |-> Rd(c.av * d, 32) * z.x[k]])]
Step(c, s, z) == IF ~s.ok THEN s ELSE LET t == IF c.k = "copdac" THEN Cop(c, s, z) ELSE Sac(c, s, z)
                                      IN IF Big(t.w) \/ Big(t.v) \/ Big(t.om) THEN [t EXCEPT !.ok = FALSE] ELSE t
RECURSIVE Fold(_, _, _, _)
Fold(c, s, zs, k) == IF k > Len(zs) THEN s ELSE Fold(c, Step(c, s, zs[k]), zs, k + 1)

\* ------------------------------------------------------------------ optimizers
\* change of the parameters e.d (1e-4) for gradient e.gr (integers)
Sgn(c) == IF c.max = 1 THEN 1 ELSE -1
RECURSIVE Dig(_, _, _)
Dig(a, b, n) == IF n = 0 THEN a \div b ELSE (Pow(100, n) * (a \div b)) + Dig(100 * (a % b), b, n - 1)
RECURSIVE ISq(_, _)
ISq(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE ISq(n, y)
Sqrt(n) == IF n <= 0 THEN 0 ELSE ISq(n, n)
\* Adam with beta1 = 1/2, beta2 = 3/4: m 2^t and v 4^t are integers
Adam(c, s, e) ==
    LET t == s.t + 1
        m == [k \in 1..K(c) |-> s.m[k] + (Pow(2, t - 1) * Sgn(c) * e.gr[k])]
        v == [k \in 1..K(c) |-> (3 * s.vv[k]) + (Pow(4, t - 1) * e.gr[k] * e.gr[k])]
    IN [s EXCEPT !.t = t, !.m = m, !.vv = v]
\* the size of the step, 1e-4: lr sqrt(mhat^2 / vhat)
AdamStep(c, s, k) ==
    IF s.vv[k] = 0 THEN 0
    ELSE LET q == Dig(s.m[k] * s.m[k] * (Pow(4, s.t) - Pow(3, s.t)), Pow(Pow(2, s.t) - 1, 2) * s.vv[k], 3)     \* 1e6 ratio^2
             z == Rd(c.lr * 10 * Sqrt(q), 16)
         IN IF s.m[k] < 0 THEN -z ELSE z
\* adaptive: step k ng with k^2 (g . ng) = eps  (c.eps in 1/64)
AdapOK(c, e) ==
    LET gg == Dot(e.gr, e.ng)
    IN gg <= 0 \/
       \A k \in 1..K(c) : /\ Near(Rd(e.d[k] * e.d[k], 10000) * gg, Rd(10000 * c.eps * e.ng[k] * e.ng[k], 64), gg * (2 + (Abs(e.d[k]) \div 5000)))
                          /\ Abs(e.d[k]) <= 5 \/ ((e.d[k] > 0) <=> (Sgn(c) * e.ng[k] > 0))

Apply(c, s, e) ==
    CASE e.op = "pg" ->
           LET w == IF c.k = "reinforce" THEN Reinforce(c, s, e) ELSE IF c.k = "gpomdp" THEN Gpomdp(c, s, e) ELSE <<>>
           IN R([s EXCEPT !.w = e.w1],
                Chk(e.w0 = s.w, "WeightsChangeOnlyInFit")
                \cup Chk(e.n = 1, "OneUpdatePerFit")
                \cup Chk(Len(e.grad) = K(c) /\ (IF c.k = "enac" THEN EnacOK(c, s, e)
                                                ELSE \A k \in 1..K(c) : Near(e.grad[k], w[k], 6 + (Abs(w[k]) \div 10000))), "Gradient"))
      [] e.op = "start" -> R([s EXCEPT !.ev = Zero(K(c)), !.et = Zero(K(c))], {})
      [] e.op = "ac" ->
           LET t == Fold(c, s, e.zs, 1)
           IN R([t EXCEPT !.w = e.w1],
                IF ~t.ok THEN {} ELSE Chk(Len(e.w1) = K(c) /\ \A k \in 1..K(c) : Near(e.w1[k], t.w[k], 8 + (Abs(t.w[k] - s.w[k]) \div 1000)), "ActorUpdate"))
      [] e.op = "opt" ->
           LET t == IF c.k = "adam" THEN Adam(c, s, e) ELSE s
           IN R(t, Chk(e.same = 1, "GradientNotModified")
                   \cup (CASE c.k = "sgd" -> Chk(\A k \in 1..K(c) : Near(e.d[k], Rd(Sgn(c) * c.lr * e.gr[k] * 10000, 16), 1), "SgdStep")
                           [] c.k = "adam" -> Chk(\A k \in 1..K(c) : Near(e.d[k], AdamStep(c, t, k), 20), "AdamStep")
                           [] OTHER -> Chk(AdapOK(c, e), "AdaptiveStep")))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
