-------------------------------- MODULE Explore --------------------------------
(* Exploration policies over discrete actions: epsilon greedy, Boltzmann, mellowmax. *)
(* State: the table of action values q (in quarters) and the number of draws each     *)
(* schedule entry has seen.  Probabilities are scaled by M.                           *)
(* c.k, c.nS, c.nA; c.sch = [k |-> "const"|"linear", a, b, n, per] in 16ths (epsilon) *)
(* or quarters (beta, omega); c.ex[i] = M exp(-(i-1)/16): the only outside knowledge  *)
EXTENDS Integers, Sequences, FiniteSets

Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
M == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
MaxOf(row) == CHOOSE x \in {row[k] : k \in 1..Len(row)} : \A k \in 1..Len(row) : x >= row[k]
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Start(c) == [q |-> <<>>, n |-> [z \in 1..c.nS |-> 0]]

\* ------------------------------------------------------------------ schedules
Cnt(c, z) == IF c.sch.per = "one" THEN 1 ELSE z
Val(c, s, z) == IF c.sch.k = "const" THEN c.sch.a
                ELSE c.sch.a + ((c.sch.b - c.sch.a) * Min2(s.n[Cnt(c, z)], c.sch.n)) \div c.sch.n
Draws(c, s, z, k) == [s EXCEPT !.n[Cnt(c, z)] = @ + k]
Uses(c, s, z, k) == IF c.k = "eps" THEN s ELSE Draws(c, s, z, k)

\* ------------------------------------------------------------------ distributions
Ties(row) == {a \in 1..Len(row) : row[a] = MaxOf(row)}
EpsP(c, row, e) == [a \in 1..c.nA |-> (e * M) \div (16 * c.nA)
                      + (IF a \in Ties(row) THEN ((16 - e) * M) \div (16 * Cardinality(Ties(row))) ELSE 0)]
\* exp(-k/16) and, for a fraction f/1000 of the next step, its interpolation
Ex(c, k) == IF k + 1 > Len(c.ex) THEN 0 ELSE c.ex[k + 1]
ExI(c, k, f) == (Ex(c, k) * (1000 - f)) \div 1000 + (Ex(c, k + 1) * f) \div 1000
Norm(c, x) == LET t == SumTo(x, c.nA) \div 500 IN [a \in 1..c.nA |-> (x[a] * 2000) \div Max2(1, t)]
BoltzP(c, row, b) == Norm(c, [a \in 1..c.nA |-> Ex(c, b * (MaxOf(row) - row[a]))])
\* a Boltzmann distribution with inverse temperature w/1000
Witness(c, row, w) == Norm(c, [a \in 1..c.nA |-> LET y == 4 * w * (MaxOf(row) - row[a]) IN ExI(c, y \div 1000, y % 1000)])
\* mean of exp(-omega (max - q)), and the same of the expected value of q under p
MellowX(c, row, o) == SumTo([a \in 1..c.nA |-> Ex(c, o * (MaxOf(row) - row[a]))], c.nA) \div c.nA
MellowP(c, row, o, p) == LET gap == SumTo([a \in 1..c.nA |-> (p[a] * (MaxOf(row) - row[a]))], c.nA)
                             y == o * Max2(0, gap)
                         IN ExI(c, y \div M, (y % M) \div 1000)

Sums(c, p) == Len(p) = c.nA /\ Near(SumTo(p, c.nA), M, 20) /\ \A a \in 1..c.nA : p[a] >= 0
GoodP(c, s, z, e) ==
    LET row == s.q[z]
        v == Val(c, s, z)
    IN CASE c.k = "eps"    -> \A a \in 1..c.nA : Near(e.p[a], EpsP(c, row, v)[a], 5)
         [] c.k = "boltz"  -> \A a \in 1..c.nA : Near(e.p[a], BoltzP(c, row, v)[a], 800)
         [] c.k = "mellow" -> /\ \A a \in 1..c.nA : Near(e.p[a], Witness(c, row, e.w)[a], 2500)
                              /\ Near(MellowP(c, row, v, e.p), MellowX(c, row, v), 2500)
                              /\ \A a, b \in 1..c.nA : row[a] = row[b] => Near(e.p[a], e.p[b], 5)

\* frequencies: within six standard deviations
FreqOK(n, cnt, p) == LET pk == p \div 1000
                         d == Abs(cnt * 1000 - n * pk) \div 1000
                     IN d <= 4 \/ (d - 4) * (d - 4) <= (36 * ((n * pk * (1000 - pk)) \div 1000)) \div 1000
Expected(c, s, z, e) ==
    CASE c.k = "eps"   -> EpsP(c, s.q[z], Val(c, s, z))
      [] c.k = "boltz" -> BoltzP(c, s.q[z], Val(c, s, z))
      [] OTHER         -> e.p
Apply(c, s, e) ==
    CASE e.op = "setq" -> R([s EXCEPT !.q = e.q], {})
      \* an evaluation of all probabilities, then nA evaluations of the probability of one action: only those of Boltzmann
      \* and mellowmax policies are uses of their parameter
      [] e.op = "prob" ->
            LET s1 == Uses(c, s, e.s, 1)
                same(a) == Val(c, Uses(c, s, e.s, a + 1), e.s) = Val(c, s1, e.s)
            IN R(Uses(c, s, e.s, 1 + c.nA),
                 Chk(Sums(c, e.p), "Normalised") \cup Chk(Sums(c, e.p) => GoodP(c, s1, e.s, e), "Distribution")
                 \cup Chk(Len(e.pa) = c.nA /\ \A a \in 1..Len(e.pa) :
                            /\ (Len(e.p) = c.nA /\ same(a)) => Near(e.pa[a], e.p[a], 2)
                            /\ c.k = "boltz" => Near(e.pa[a], BoltzP(c, s.q[e.s], Val(c, Uses(c, s, e.s, a + 1), e.s))[a], 800), "ProbabilityOfAnAction"))
      [] e.op = "draw" -> LET s2 == Draws(c, s, e.s, e.n)
                          IN R(s2, Chk(e.n = 1 => \A a \in 1..c.nA : e.cnt[a] > 0 => Expected(c, s2, e.s, e)[a] > 0, "Support")
                                   \cup Chk(SumTo(e.cnt, c.nA) = e.n, "ValidAction")
                                   \cup Chk(e.n = 1 \/ \A a \in 1..c.nA : FreqOK(e.n, e.cnt[a], Expected(c, s2, e.s, e)[a])
                                                        /\ (Expected(c, s2, e.s, e)[a] = 0 => e.cnt[a] = 0), "Frequencies"))
      \* an explicit update of the schedule counts as a draw; a new constant replaces the schedule
      [] e.op = "update" -> R(Draws(c, s, e.s, 1), {})
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
