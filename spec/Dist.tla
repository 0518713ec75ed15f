---------------------------------- MODULE Dist ----------------------------------
(* Gaussian distributions over parameter vectors.  State: mean m and lower triangular   *)
(* factor l = <<L11>> or <<L11, L21, L22>> of the covariance, in quarters.              *)
(* c.k "full" (parameters: mean), "diag" (mean, std), "chol" (mean, factor), "tdiag"    *)
(* (mean, log std), "tchol" (mean, factor).  Log densities 1e-4, gradients 1e-3,        *)
(* estimated parameters 1e-4.  c.ln[k] = 1e4 ln k.                                      *)
EXTENDS Num
Start(c) == [m |-> c.m, l |-> c.l]
HALF2PI == 9189
D(c) == Len(c.m)
\* numerators: y1 = d1/L11, y2 = N2/(L11 L22), z = L^-T y
N2(l, d) == (d[2] * l[1]) - (l[2] * d[1])
Quad(c, l, d) == Rd(5000 * d[1] * d[1], l[1] * l[1]) + (IF D(c) = 1 THEN 0 ELSE Rd(5000 * N2(l, d) * N2(l, d), l[1] * l[1] * l[3] * l[3]))
Piv(c, l) == IF D(c) = 1 THEN <<l[1]>> ELSE <<l[1], l[3]>>
HLogDet(c, l) == Sum([i \in 1..D(c) |-> c.ln[Piv(c, l)[i]] - c.ln[4]])
LogP(c, s, x) == -(Quad(c, s.l, [i \in 1..D(c) |-> x[i] - s.m[i]]) + HLogDet(c, s.l) + (D(c) * HALF2PI))
Entropy(c, s) == HLogDet(c, s.l) + (D(c) * (HALF2PI + 5000))
Cov(l, i, j) == IF i = 1 /\ j = 1 THEN l[1] * l[1] ELSE IF i = j THEN (l[2] * l[2]) + (l[3] * l[3]) ELSE l[1] * l[2]        \* 1/16
Z(c, l, d) == IF D(c) = 1 THEN <<Rd(4000 * d[1], l[1] * l[1])>>
              ELSE <<Rd(4000 * ((d[1] * l[3] * l[3]) - (l[2] * N2(l, d))), l[1] * l[1] * l[3] * l[3]), Rd(4000 * N2(l, d), l[1] * l[3] * l[3])>>
GFac(c, l, d) ==
    IF D(c) = 1 THEN <<Rd(4000 * ((d[1] * d[1]) - (l[1] * l[1])), l[1] * l[1] * l[1])>>
    ELSE <<Rd(4000 * d[1] * ((d[1] * l[3] * l[3]) - (l[2] * N2(l, d))), l[1] * l[1] * l[1] * l[3] * l[3]) - Rd(4000, l[1]),
           Rd(4000 * N2(l, d) * d[1], l[1] * l[1] * l[3] * l[3]),
           Rd(4000 * N2(l, d) * N2(l, d), l[1] * l[1] * l[3] * l[3] * l[3]) - Rd(4000, l[3])>>
GStd(c, l, d) == [i \in 1..D(c) |-> LET v == Piv(c, l)[i] IN Rd(4000 * ((d[i] * d[i]) - (v * v)), v * v * v)]
Grad(c, s, x) == LET d == [i \in 1..D(c) |-> x[i] - s.m[i]]
                 IN Z(c, s.l, d) \o (IF c.k = "diag" THEN GStd(c, s.l, d) ELSE IF c.k = "chol" THEN GFac(c, s.l, d) ELSE <<>>)
\* parameter vector, 1e-4
Par(c, s) == [i \in 1..D(c) |-> 2500 * s.m[i]]
             \o (CASE c.k = "full" -> <<>>
                   [] c.k = "diag" -> [i \in 1..D(c) |-> 2500 * Piv(c, s.l)[i]]
                   [] c.k = "tdiag" -> [i \in 1..D(c) |-> c.ln[Piv(c, s.l)[i]] - c.ln[4]]
                   [] OTHER -> [i \in 1..Len(s.l) |-> 2500 * s.l[i]])
Close(f, g, t) == Len(f) = Len(g) /\ \A k \in 1..Len(f) : Near(f[k], g[k], t + (Abs(g[k]) \div 5000))

\* ------------------------------------------------------------------ estimation: points e.th (quarters), weights e.w (integers; <<>>: none)
W(e) == IF e.w = <<>> THEN [k \in 1..Len(e.th) |-> 1] ELSE e.w
S0(e) == Sum(W(e))
S00(e) == Sum([k \in 1..Len(e.th) |-> W(e)[k] * W(e)[k]])
S1(e, i) == Sum([k \in 1..Len(e.th) |-> W(e)[k] * e.th[k][i]])
S2(e, i, j) == Sum([k \in 1..Len(e.th) |-> W(e)[k] * e.th[k][i] * e.th[k][j]])
Scat(e, i, j) == (S0(e) * S2(e, i, j)) - (S1(e, i) * S1(e, j))
\* population variance without weights for the diagonal distribution, unbiased estimates otherwise
Nrm(c, e) == IF e.w = <<>> /\ c.k = "diag" THEN S0(e) * S0(e) ELSE (S0(e) * S0(e)) - S00(e)
MleMean(c, e) == [i \in 1..D(c) |-> Frm(2500, S1(e, i), S0(e))]
MleCov(c, e, i, j) == Frm(625, Scat(e, i, j), Nrm(c, e))          \* 1e-4
\* covariance (1e-4) from estimated parameters (1e-4)
P2(a, b) == Rd(Rd(a, 1) * Rd(b, 10), 1000)
GotCov(c, p, i, j) ==
    IF c.k = "diag" THEN IF i = j THEN P2(p[D(c) + i], p[D(c) + i]) ELSE 0
    ELSE IF i = 1 /\ j = 1 THEN P2(p[D(c) + 1], p[D(c) + 1]) ELSE IF i # j THEN P2(p[D(c) + 1], p[D(c) + 2])
    ELSE P2(p[D(c) + 2], p[D(c) + 2]) + P2(p[D(c) + 3], p[D(c) + 3])
MleOK(c, s, e) ==
    LET p == e.par
    IN /\ Len(p) = Len(Par(c, s))
       /\ \A i \in 1..D(c) : Near(p[i], MleMean(c, e)[i], 2 + (Abs(p[i]) \div 10000))
       /\ c.k # "full" => \A i \in 1..D(c) : \A j \in 1..i : (c.k = "diag" /\ i # j) \/ Near(GotCov(c, p, i, j), MleCov(c, e, i, j), 25 + (Abs(MleCov(c, e, i, j)) \div 200))
\* constrained estimation, one dimension: new mean and deviation p (1e-4); KL(old || new) and loss of entropy bounded (1e-3)
Kl1(c, m0, s0, m1, s1) == Rd(Rd(M4(s0, s0) + M4(m1 - m0, m1 - m0), 1) * 500, Max2(1, M4(s1, s1))) - 500 + LnR(c, s1, s0)
ConOK(c, s, e) ==
    LET s0 == 2500 * s.l[1]
        s1 == IF c.k = "full" THEN s0 ELSE e.par[2]
    IN /\ s1 > 0
       /\ Kl1(c, 2500 * s.m[1], s0, e.par[1], s1) <= e.eps + 4 + (e.eps \div 40)
       /\ LnR(c, s0, s1) <= e.kap + 4 + (e.kap \div 40)
\* MORE on a concave quadratic with maximum e.t (quarters): KL(new || old) at most eps, entropy at least its bound (1e-3), and one of them active
MoreOK(c, s, e) ==
    LET s0 == 2500 * s.l[1]
        m0 == 2500 * s.m[1]
        m1 == e.par[1]
        s1 == e.par[2]
        kl == Kl1(c, m1, s1, m0, s0)
        bound == Rd(e.kappa * (Rd(Entropy(c, s), 10) - (1000 * e.h0)), 100) + (1000 * e.h0)
        h1 == LnR(c, s1, 10000) + 1419
        t == 2500 * e.t
    IN /\ s1 > 0
       /\ kl <= e.eps + 5 + (e.eps \div 25)
       /\ h1 >= bound - 8
       /\ kl >= e.eps - 5 - (e.eps \div 25) \/ (h1 <= bound + 8 /\ Near(m1, t, 200))
       /\ Abs(m1 - t) <= Abs(m0 - t) + 20
       /\ (m1 - m0) * (IF t > m0 THEN 1 ELSE IF t < m0 THEN -1 ELSE 0) >= -20

Apply(c, s, e) ==
    CASE e.op = "set" -> R([m |-> e.m, l |-> e.l], {})
      [] e.op = "get" -> R(s, Chk(Close(e.par, Par(c, s), 2), "Parameters")
                              \cup Chk(e.size = Len(Par(c, s)), "ParametersSize")
                              \cup Chk(Close(e.mean, [i \in 1..D(c) |-> 2500 * s.m[i]], 1), "Mean")
                              \cup Chk(Near(e.ent, Entropy(c, s), 4), "Entropy"))
      [] e.op = "pdf" -> R(s, Chk(Near(e.lp, LogP(c, s, e.x), 4 + (Abs(LogP(c, s, e.x)) \div 5000)), "LogPdf")
                              \cup Chk(e.cons = 1, "PdfIsExpOfLogPdf")
                              \cup (IF c.k \in {"tdiag", "tchol"} THEN {} ELSE Chk(Close(e.grad, Grad(c, s, e.x), 4), "DiffLog") \cup Chk(e.diff = 1, "DiffIsPdfTimesDiffLog")))
      \* averages over e.n draws of deviations (1e-3, in quarters) and their products (1e-3, in 1/16)
      [] e.op = "samples" -> R(s, Chk(\A i \in 1..D(c) : Near(e.s1[i], 0, Rd(7000 * (1 + Sqrt(Cov(s.l, i, i))), Sqrt(e.n))), "SampleMean")
                                  \cup Chk(\A i \in 1..D(c) : \A j \in 1..i :
                                             Near(e.s2[i][j], 1000 * Cov(s.l, i, j), Rd(9000 * (1 + Max2(Cov(s.l, i, i), Cov(s.l, j, j))), Sqrt(e.n))), "SampleCovariance"))
      [] e.op = "mle" -> R(s, Chk(MleOK(c, s, e), "MaximumLikelihood"))
      [] e.op = "con" -> R(s, Chk(ConOK(c, s, e), "ConstrainedEstimate"))
      [] e.op = "more" -> R(s, Chk(MoreOK(c, s, e), "ModelBasedUpdate"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
