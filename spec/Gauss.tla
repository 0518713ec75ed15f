--------------------------------- MODULE Gauss ---------------------------------
(* Policies over continuous actions.  State: the weight vector w and the (co)variance. *)
(* Units: features x integers; mean weights halves; actions and deviations quarters;    *)
(* log densities 1e-4, gradients 1e-3.                                                  *)
(* c.k  "full"   covariance sg = <<p, q, r>> (integers; nA = 1: <<p>>)                  *)
(*      "diag"   standard deviations (quarters) are the last nA weights                 *)
(*      "std"    std regressor (quarters) in the last weights, c.e = eps in 16ths       *)
(*      "lstd"   log-std regressor (quarters) in the last weights                       *)
(*      "torch"  log-std (quarters) are the last nA weights                             *)
(*      "clip"   covariance sg, actions clipped to [c.lo, c.hi] (quarters)              *)
(*      "ou"     sg = sigma^2 dt in 16ths, drift c.dr 16ths                             *)
(*      "det"    deterministic                                                         *)
(* c.ln[k] = 1e4 ln k; c.ex[7 + m] = 1e4 exp(-m/2): the only outside knowledge          *)
EXTENDS Integers, Sequences, FiniteSets

Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
\* integer division rounded to nearest, for any sign
Rd(a, b) == IF a >= 0 THEN ((2 * a) + b) \div (2 * b) ELSE -((((-2) * a) + b) \div (2 * b))
Start(c) == [w |-> c.w, sg |-> c.sg]

HALF2PI == 9189      \* 1e4 ln(2 pi) / 2
Idx(c, i, j) == (i - 1) * c.nF + j
NM(c) == c.nA * c.nF
Mu(c, s, x, i) == 2 * SumTo([j \in 1..c.nF |-> s.w[Idx(c, i, j)] * x[j]], c.nF)          \* quarters
Del(c, s, x, a, i) == a[i] - Mu(c, s, x, i)
\* second regressor / vector
Sec(c, s, x, i) == IF c.k \in {"std", "lstd"} THEN SumTo([j \in 1..c.nF |-> s.w[NM(c) + Idx(c, i, j)] * x[j]], c.nF)
                   ELSE s.w[NM(c) + i]
Full(c) == c.k \in {"full", "clip"}
Det(c, s) == IF c.nA = 1 THEN s.sg[1] ELSE (s.sg[1] * s.sg[3]) - (s.sg[2] * s.sg[2])
\* numerator of (inverse covariance times deviation), i-th component; the denominator is 4 Det
Num(c, s, d, i) == IF c.nA = 1 THEN d[1]
                   ELSE IF i = 1 THEN (s.sg[3] * d[1]) - (s.sg[2] * d[2]) ELSE (s.sg[1] * d[2]) - (s.sg[2] * d[1])
\* inverse covariance times deviation, 1e-3
InvDel(c, s, x, d, i) ==
    CASE Full(c)     -> Rd(250 * Num(c, s, d, i), Det(c, s))
      [] c.k = "diag" -> Rd(4000 * d[i], Sec(c, s, x, i) * Sec(c, s, x, i))
      [] c.k = "std"  -> Rd(4000 * d[i], (Sec(c, s, x, i) * Sec(c, s, x, i)) + c.e)
      [] OTHER        -> Rd(d[i] * c.ex[7 + Sec(c, s, x, i)], 40)
\* 1e4 half squared distance and half log determinant
Quad(c, s, x, d) ==
    CASE Full(c)     -> Rd(312 * SumTo([i \in 1..c.nA |-> d[i] * Num(c, s, d, i)], c.nA)
                           + Rd(SumTo([i \in 1..c.nA |-> d[i] * Num(c, s, d, i)], c.nA), 2), Det(c, s))
      [] c.k = "diag" -> SumTo([i \in 1..c.nA |-> Rd(5000 * d[i] * d[i], Sec(c, s, x, i) * Sec(c, s, x, i))], c.nA)
      [] c.k = "std"  -> SumTo([i \in 1..c.nA |-> Rd(5000 * d[i] * d[i], (Sec(c, s, x, i) * Sec(c, s, x, i)) + c.e)], c.nA)
      [] OTHER        -> SumTo([i \in 1..c.nA |-> Rd(d[i] * d[i] * c.ex[7 + Sec(c, s, x, i)], 32)], c.nA)
LogDet(c, s, x) ==
    CASE Full(c)     -> c.ln[Det(c, s)] \div 2
      [] c.k = "diag" -> SumTo([i \in 1..c.nA |-> c.ln[Sec(c, s, x, i)] - c.ln[4]], c.nA)
      [] c.k = "std"  -> SumTo([i \in 1..c.nA |-> (c.ln[(Sec(c, s, x, i) * Sec(c, s, x, i)) + c.e] - c.ln[16]) \div 2], c.nA)
      [] OTHER        -> SumTo([i \in 1..c.nA |-> 2500 * Sec(c, s, x, i)], c.nA)
LogP(c, s, x, a) == LET d == [i \in 1..c.nA |-> Del(c, s, x, a, i)]
                    IN -(Quad(c, s, x, d) + LogDet(c, s, x) + c.nA * HALF2PI)
Entropy(c, s, x) == LogDet(c, s, x) + c.nA * (HALF2PI + 5000)
\* gradient of the log density with respect to all weights, 1e-3
GSec(c, s, x, d, i) ==
    LET v == Sec(c, s, x, i)
    IN CASE c.k = "diag" -> Rd(4000 * ((d[i] * d[i]) - (v * v)), v * v * v)
         [] c.k = "std"  -> LET D == (v * v) + c.e IN Rd(4000 * ((d[i] * d[i]) - D) * v, D * D)
         [] OTHER        -> Rd(d[i] * d[i] * c.ex[7 + v], 160) - 1000
Grad(c, s, x, a) ==
    LET d == [i \in 1..c.nA |-> Del(c, s, x, a, i)]
        g1 == [k \in 1..NM(c) |-> InvDel(c, s, x, d, ((k - 1) \div c.nF) + 1) * x[((k - 1) % c.nF) + 1]]
        g2 == IF c.k \in {"std", "lstd"} THEN [k \in 1..NM(c) |-> GSec(c, s, x, d, ((k - 1) \div c.nF) + 1) * x[((k - 1) % c.nF) + 1]]
              ELSE IF c.k \in {"diag", "torch"} THEN [i \in 1..c.nA |-> GSec(c, s, x, d, i)] ELSE <<>>
    IN g1 \o g2

\* -------------------------------------------------------------- samples: sums of deviations (1/10) and of their products (1/10)
\* covariance in 16ths, times 10
Cov(c, s, x, i, j) ==
    CASE Full(c)     -> 160 * (IF c.nA = 1 THEN s.sg[1] ELSE IF i # j THEN s.sg[2] ELSE IF i = 1 THEN s.sg[1] ELSE s.sg[3])
      [] c.k = "ou"   -> IF i = j THEN 10 * s.sg[i] ELSE 0
      [] i # j        -> 0
      [] c.k = "diag" -> 10 * Sec(c, s, x, i) * Sec(c, s, x, i)
      [] c.k = "std"  -> 10 * ((Sec(c, s, x, i) * Sec(c, s, x, i)) + c.e)
      [] OTHER        -> Rd(16 * c.ex[7 - Sec(c, s, x, i)], 1000)
\* mean of the deviation, units quarters/10, n samples: (sum)^2 <= 49 n var;  var of the mean in (quarter)^2 is Cov/10
MeanOK(c, s, x, n, m) == \A i \in 1..c.nA : LET q == Abs(m[i]) \div n IN      \* m: sum of deviations, 1/100 quarters
                            q <= 3 \/ (q - 3) * (q - 3) <= (49 * 1000 * Cov(c, s, x, i, i)) \div n
\* q2[i][j]: mean of the products of deviations, 10 x 16ths
CovOK(c, s, x, n, q2) ==
    \A i, j \in 1..c.nA :
      LET d == Abs(q2[i][j] - Cov(c, s, x, i, j))
          v == ((Cov(c, s, x, i, i) + 3) * (Cov(c, s, x, j, j) + 3)) + (Cov(c, s, x, i, j) * Cov(c, s, x, i, j))
      IN d <= 1 \/ ((d - 1) * (d - 1)) <= (81 * v) \div n
BoundOK(c, e) == \A i \in 1..c.nA : e.mn[i] >= c.lo[i] /\ e.mx[i] <= c.hi[i]
\* mean farther than seven standard deviations outside the bounds: always the bound
Pinned(c, s, x, e) == \A i \in 1..c.nA :
    LET m == Mu(c, s, x, i)
        dl == c.lo[i] - m
        du == m - c.hi[i]
        v == Cov(c, s, x, i, i) \div 10
    IN /\ (dl > 0 /\ dl * dl > 49 * v) => e.mx[i] = c.lo[i]
       /\ (du > 0 /\ du * du > 49 * v) => e.mn[i] = c.hi[i]
Wide(c) == c.wide = 1

Apply(c, s, e) ==
    CASE e.op = "setw" -> R([s EXCEPT !.w = e.w], {})
      [] e.op = "setsg" -> R([s EXCEPT !.sg = e.sg], {})
      [] e.op = "getw" -> R(s, Chk(e.w = s.w, "Weights") \cup Chk(e.n = Len(s.w) \/ e.n = -1, "WeightsSize"))
      [] e.op = "eval" ->
            LET lp == LogP(c, s, e.x, e.a)
                g == Grad(c, s, e.x, e.a)
            IN R(s, Chk(Near(e.lp, lp, 10), "Density")
                    \cup Chk(Len(e.g) = Len(g) /\ \A k \in 1..Min2(Len(g), Len(e.g)) : Near(e.g[k], g[k], 3 + (Abs(g[k]) \div 1000)), "GradientOfLog")
                    \cup Chk(e.hasd = 0 \/ (Len(e.gd) = Len(g) /\ \A k \in 1..Min2(Len(g), Len(e.gd)) :
                               Abs(g[k]) > 20000 \/ Near(e.gd[k], Rd(e.p * g[k], 10000), 12 + (Abs(g[k]) \div 1000))), "GradientOfDensity")
                    \cup Chk(e.hase = 0 \/ Near(e.en, Entropy(c, s, e.x), 10), "Entropy"))
      [] e.op = "draw" ->
            R(s, Chk(e.ok = 1, "Shape")
                 \cup Chk(c.k = "clip" => BoundOK(c, e) /\ Pinned(c, s, e.x, e), "Bounds")
                 \cup Chk((c.k = "clip" /\ ~Wide(c)) \/ MeanOK(c, s, e.x, e.n, e.m), "SampleMean")
                 \cup Chk((c.k = "clip" /\ ~Wide(c)) \/ CovOK(c, s, e.x, e.n, e.q2), "SampleCovariance"))
      \* OU: d = (x' - drift x) summed; am: largest |action - mean - x'|
      [] e.op = "noise" -> R(s, Chk(e.ok = 1, "Shape") \cup Chk(e.am = 0, "ActionIsMeanPlusNoise")
                               \cup Chk(MeanOK(c, s, e.x, e.n, e.m), "NoiseMean") \cup Chk(CovOK(c, s, e.x, e.n, e.q2), "NoiseVariance"))
      [] e.op = "reset" -> R(s, Chk(e.v = c.x0, "InitialNoise"))
      [] e.op = "det" -> R(s, Chk(e.a = [i \in 1..c.nA |-> Mu(c, s, e.x, i)], "Action") \cup Chk(e.p1 = 1 /\ e.p0 = 0, "Probability"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
