----------------------------------- MODULE Feat -----------------------------------
(* Features of an input: tilings, Voronoi cells, polynomials, Fourier and radial basis    *)
(* functions, their torch versions, random Fourier features, state-action features.        *)
(* Inputs are exact multiples of 1/16, given in 1e-6.                                      *)
EXTENDS Fix, TLC
Start(c) == [z |-> 0]
Cat(q) == LET RECURSIVE G(_)
              G(i) == IF i > Len(q) THEN <<>> ELSE q[i] \o G(i + 1)
          IN G(1)
Hot(n, I) == [j \in 1..n |-> IF j - 1 \in I THEN One ELSE 0]
Prod(q) == LET RECURSIVE G(_)
               G(i) == IF i = 0 THEN 1 ELSE q[i] * G(i - 1)
           IN G(Len(q))
Sub(x, dims) == IF dims = <<>> THEN x ELSE [i \in 1..Len(dims) |-> x[dims[i]]]
\* ------------------------------------------------------------------ tilings: ranges in 1/16 as c.lo, c.hi per dimension
\* possible indexes of a point: {} outside; two where rounding decides
U(x) == x \div 62500
\* cells of coordinate q/d (cell width 1) with n cells; fuzzy if rounding may decide at the borders
Cell(q, d, n, fuzzy) ==
    LET f == q \div d
        S == IF fuzzy /\ q % d = 0 THEN {f - 1, f} ELSE {f}
    IN {IF k \in 0..(n - 1) THEN k ELSE -1 : k \in S}
\* combinations of one cell per dimension; -1 if any is outside
Index(cells, n) ==
    LET d == Len(n)
        C == {f \in [1..d -> -1..20] : \A i \in 1..d : f[i] \in cells[i]}
        Ix(f) == IF \E i \in 1..d : f[i] = -1 THEN -1 ELSE SumTo([i \in 1..d |-> f[i] * Prod([j \in 1..(i - 1) |-> n[j]])], d)
    IN {Ix(f) : f \in C}
TileIx(t, x) == LET y == Sub(x, t.dims) IN
    Index([i \in 1..Len(t.n) |-> Cell((U(y[i]) - t.lo[i]) * t.n[i], t.hi[i] - t.lo[i], t.n[i], FALSE)], t.n)
\* k-th (from 0) of c.nt generated tilings over lo..hi
GenIx(c, k, x) ==
    Index([i \in 1..Len(c.n) |->
        LET L == c.hi[i] - c.lo[i]
            sh == IF c.uni = 1 THEN 1 ELSE (2 * i) - 1
            v == (k * sh) % c.nt
        IN Cell(((U(x[i]) - c.lo[i]) * ((c.n[i] * c.nt) - c.nt + 1)) + ((c.nt - 1 - v) * L), L * c.nt, c.n[i], TRUE)], c.n)
OneHot(y, n, off, S) == \E k \in S : \A j \in 1..n : y[off + j] = (IF j - 1 = k THEN One ELSE 0)
TilesOK(c, e) ==
    LET sz == [k \in 1..Len(c.T) |-> Prod(c.T[k].n)]
    IN Len(e.y) = Sum(sz) /\ e.size = Sum(sz) /\ \A k \in 1..Len(c.T) : OneHot(e.y, sz[k], SumTo(sz, k - 1), TileIx(c.T[k], e.x))
Log2Up(n) == CHOOSE k \in 0..12 : Pow(2, k) >= n /\ (k = 0 \/ Pow(2, k - 1) < n)
AutoN(d, n) == LET m == Max2(Log2Up(4 * d), Log2Up(n)) IN m * m
GenOK(c, e) ==
    LET sz == Prod(c.n)
    IN Len(e.y) = c.nt * sz /\ e.size = c.nt * sz /\ \A k \in 0..(c.nt - 1) : OneHot(e.y, sz, k * sz, GenIx(c, k, e.x))
IndexesOK(c, e) == \A j \in 1..Len(e.y) : (e.y[j] = One) <=> \E i \in 1..Len(e.ix) : e.ix[i] = j - 1
\* ------------------------------------------------------------------ Voronoi: prototypes in 1/16
D2(p, x) == SumTo([i \in 1..Len(p) |-> (U(x[i]) - p[i]) * (U(x[i]) - p[i])], Len(p))
VorOK(c, e) ==
    LET sz == [k \in 1..Len(c.P) |-> Len(c.P[k])]
    IN Len(e.y) = Sum(sz) /\ e.size = Sum(sz)
       /\ \A k \in 1..Len(c.P) : OneHot(e.y, sz[k], SumTo(sz, k - 1), {i - 1 : i \in {i \in 1..sz[k] : \A j \in 1..sz[k] : D2(c.P[k][i], e.x) <= D2(c.P[k][j], e.x)}})
\* ------------------------------------------------------------------ smooth functions
RECURSIVE PowP(_, _)
PowP(x, k) == IF k = 0 THEN One ELSE Mp(x, PowP(x, k - 1))
ScaleX(c, x, i) == IF c.nrm = 1 THEN Dv((2 * x[i]) - (62500 * (c.hi[i] + c.lo[i])), 62500 * (c.hi[i] - c.lo[i])) ELSE x[i]
Mono(c, x, ex) == LET RECURSIVE G(_)
                      G(i) == IF i = 0 THEN One ELSE Mp(G(i - 1), PowP(ScaleX(c, x, i), ex[i]))
                  IN G(Len(ex))
\* all exponents of at most degree deg
RECURSIVE Exps(_, _)
Exps(n, deg) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o f : f \in Exps(n - 1, deg - k)} : k \in 0..deg}
SeqOf(S) == LET RECURSIVE G(_)
                G(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o G(T \ {x})
            IN G(S)
Lt(a, b) == a < b
SortedNear(y, z, tol) == Len(y) = Len(z) /\ LET a == SortSeq(y, Lt)
                                               b == SortSeq(z, Lt)
                                           IN \A i \in 1..Len(a) : Near(a[i], b[i], tol + (Abs(b[i]) \div 20000))
InOrder(y, z, tol) == Len(y) = Len(z) /\ \A i \in 1..Len(y) : Near(y[i], z[i], tol + (Abs(z[i]) \div 20000))
Four(c, x, cf) == LET s == SumTo([i \in 1..Len(cf) |-> cf[i] * Dv(x[i] - (62500 * c.lo[i]), 62500 * (c.hi[i] - c.lo[i]))], Len(cf)) IN Cos(Mp(Pi, s))
RECURSIVE Combos(_, _)
Combos(n, m) == IF n = 0 THEN {<<>>} ELSE {<<k>> \o f : k \in 0..m, f \in Combos(n - 1, m)}
\* centres and scales of a uniform grid: widths (1 + eta) range / n
Width(c, i) == LET L == 62500 * Abs(c.hi[i] - c.lo[i]) IN
    IF c.n[i] = 1 THEN L \div 2 ELSE Rd((100 + c.eta) * Rd(IF c.cyc = 1 THEN L - Rd(L, c.n[i]) ELSE L, c.n[i]), 100)
Centre(c, i, k) == LET a == 62500 * c.lo[i]
                       L == 62500 * (c.hi[i] - c.lo[i])
                   IN IF c.n[i] = 1 THEN a + (L \div 2) ELSE a + Rd(k * (IF c.cyc = 1 THEN L - Rd(Abs(L), c.n[i]) ELSE L), c.n[i] - 1)
\* (x/y) for possibly large results, saturating
Ratio(x, y) == IF y <= 0 \/ x >= 40 * y THEN 40 * One ELSE Dv(x, y)
Rbf(c, mu, sc, x) == LET q == SumTo([i \in 1..Len(mu) |-> Ratio(Mp(x[i] - mu[i], x[i] - mu[i]), sc[i])], Len(mu)) IN ExpS(c, Min2(q, 20 * One))
Mises(c, mu, sc, x) == LET q == SumTo([i \in 1..Len(mu) |-> Ratio(One - Cos(2 * Mp(Pi, x[i] - mu[i])), sc[i])], Len(mu)) IN ExpS(c, Min2(q, 20 * One))
Basis(c, mu, sc, x) == IF c.cyc = 1 THEN Mises(c, mu, sc, x) ELSE Rbf(c, mu, sc, x)
Scale(c, i) == IF c.cyc = 1 THEN Width(c, i) ELSE LET w == Rd(Width(c, i), 3) IN 2 * Mp(w, w)
Grid(c) == SeqOf({f \in [1..Len(c.n) -> 0..5] : \A i \in 1..Len(c.n) : f[i] < c.n[i]})
RawGrid(c, x) == LET g == Grid(c) IN [k \in 1..Len(g) |-> Basis(c, [i \in 1..Len(c.n) |-> Centre(c, i, g[k][i])], [i \in 1..Len(c.n) |-> Scale(c, i)], x)]
RawList(c, x) == [k \in 1..Len(c.mu) |-> Basis(c, c.mu[k], c.sc, x)]
Normal(c, y) == IF c.nrm = 1 THEN LET t == <<>> \o y
                                      s == Sum(t) IN [k \in 1..Len(t) |-> IF s = 0 THEN 0 ELSE Dv(t[k], s)] ELSE y
\* normalised functions far from every centre are not resolved by the fixed point
Dim(c, y) == c.nrm = 1 /\ LET t == <<>> \o y IN Sum(t) < 50000
Rff(c, x) == [j \in 1..Len(c.phi) |-> Sin(Rd(16 * SumTo([i \in 1..Len(x) |-> Mp(x[i], c.Pm[i][j])], Len(x)), c.nu) + c.phi[j])]
\* ------------------------------------------------------------------ state-action features
ActOK(e) == Len(e.y) = Len(e.x) * e.n /\ \A j \in 1..Len(e.y) : e.y[j] = (IF (j - 1) \div Len(e.x) = e.a THEN e.x[((j - 1) % Len(e.x)) + 1] ELSE 0)
PhiOK(c, e) ==
    CASE c.k = "tiles" -> TilesOK(c, e)
      [] c.k = "gen" -> GenOK(c, e)
      [] c.k = "vor" -> VorOK(c, e)
      [] c.k = "poly" -> e.size = Len(c.e) /\ InOrder(e.y, [k \in 1..Len(c.e) |-> Mono(c, e.x, c.e[k])], 40)
      [] c.k = "polygen" -> e.size = Cardinality(Exps(c.d, c.deg)) /\ SortedNear(e.y, LET q == SeqOf(Exps(c.d, c.deg)) IN [k \in 1..Len(q) |-> Mono(c, e.x, q[k])], 40)
      [] c.k = "four" -> e.size = Len(c.e) /\ InOrder(e.y, [k \in 1..Len(c.e) |-> Four(c, Sub(e.x, c.dims), c.e[k])], 60)
      [] c.k = "fourgen" -> e.size = Cardinality(Combos(Len(c.lo), c.deg)) /\ SortedNear(e.y, LET q == SeqOf(Combos(Len(c.lo), c.deg)) IN [k \in 1..Len(q) |-> Four(c, Sub(e.x, c.dims), q[k])], 60)
      [] c.k = "rbf" -> e.size = Len(c.mu) /\ LET r == RawList(c, Sub(e.x, c.dims)) IN IF Dim(c, r) THEN Len(e.y) = Len(r) ELSE InOrder(e.y, Normal(c, r), 300)
      [] c.k = "rbfgen" -> e.size = Prod(c.n) /\ LET r == RawGrid(c, Sub(e.x, c.dims)) IN IF Dim(c, r) THEN Len(e.y) = Len(r) ELSE SortedNear(e.y, Normal(c, r), 600)
      [] c.k = "rff" -> e.size = Len(c.phi) + c.bias /\ InOrder(e.y, Rff(c, e.x) \o (IF c.bias = 1 THEN <<One>> ELSE <<>>), 60)
      [] c.k = "fun" -> e.size = Len(e.y) /\ e.y = [i \in 1..Len(e.x) |-> c.m * e.x[i]]
Apply(c, s, e) ==
    CASE e.op = "phi" -> R(s, Chk(PhiOK(c, e), "Features"))
      [] e.op = "ix" -> R(s, Chk(IndexesOK(c, e), "TileIndexes"))
      [] e.op = "act" -> R(s, Chk(ActOK(e), "ActionFeatures"))
      [] e.op = "auto" -> R(s, Chk(e.got = AutoN(e.d, e.n), "AutomaticNumberOfTilings"))
      [] e.op = "count" -> R(s, Chk(e.got = e.want, "Count"))
      [] e.op = "same" -> R(s, Chk(e.same = 1, "InputNotModified"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
