------------------------------- MODULE FiniteEnv -------------------------------
(* Finite environments: FiniteMDP, the grid worlds, and the generators of grid worlds,  *)
(* taxi worlds and chains.  Probabilities are in 1/16, states and actions from 1.        *)
EXTENDS Num
Start(c) == [x |-> 0]
\* ------------------------------------------------------------ FiniteMDP
Dead(c, x) == \A a \in 1..Len(c.p[x]) : \A y \in 1..Len(c.p) : c.p[x][a][y] = 0
\* n draws of an event of probability k/16: six standard deviations
Freq(n, cnt, k) == ((16 * cnt) - (n * k)) * ((16 * cnt) - (n * k)) <= 36 * n * k * (16 - k)
MuOK(c, x) == IF c.mu = <<>> THEN x \in 1..Len(c.p) ELSE x \in 1..Len(c.p) /\ c.mu[x] > 0
\* ------------------------------------------------------------ grid worlds; actions up, down, left, right
Dirs == <<<<-1, 0>>, <<1, 0>>, <<0, -1>>, <<0, 1>>>>
In(h, w, q) == q[1] \in 1..h /\ q[2] \in 1..w
Plus(q, d) == <<q[1] + d[1], q[2] + d[2]>>
Move(c, q, a) == LET n == Plus(q, Dirs[a]) IN IF In(c.h, c.w, n) THEN n ELSE q
Pos(c, x) == <<((x - 1) \div c.w) + 1, ((x - 1) % c.w) + 1>>
Idx(c, q) == ((q[1] - 1) * c.w) + q[2]
GridStep(c, x, e) ==
    LET q == Pos(c, x)
        n == IF c.k = "vanhasselt" /\ q = c.goal THEN q ELSE Move(c, q, e.a)
        hit == IF c.k = "grid" THEN n = c.goal ELSE q = c.goal
    IN Chk(e.obs = Idx(c, n), "GridTransition") \cup Chk(e.ab = (IF hit THEN 1 ELSE 0), "GridAbsorbing")
       \cup Chk(IF c.k = "grid" THEN e.r = (IF hit THEN 10 ELSE 0) ELSE IF hit THEN e.r = 5 ELSE e.r \in {-12, 10}, "GridReward")
\* ------------------------------------------------------------ generators from a map
H(c) == Len(c.map)
W(c) == Len(c.map[1])
All(c) == [k \in 1..(H(c) * W(c)) |-> <<((k - 1) \div W(c)) + 1, ((k - 1) % W(c)) + 1>>]
Cells(c) == SelectSeq(All(c), LAMBDA q : c.map[q[1]][q[2]] # "#")
Ty(c, q) == c.map[q[1]][q[2]]
Free(c, q) == In(H(c), W(c), q) /\ Ty(c, q) # "#"
Aim(c, q, d) == IF Free(c, Plus(q, d)) THEN Plus(q, d) ELSE q
\* probability of going from q to t with action a: it succeeds or nothing happens
PGrid(c, q, a, t) == IF Ty(c, q) \in {"G", "*"} THEN 0
                     ELSE (IF t = Aim(c, q, Dirs[a]) THEN c.prob ELSE 0) + (IF t = q THEN 16 - c.prob ELSE 0)
RGrid(c, q, a, t) == IF t = q THEN 0 ELSE CASE Ty(c, t) = "G" -> c.pos [] Ty(c, t) = "*" -> c.neg [] OTHER -> 0
MuGen(c, e, L, n) == LET m == Cardinality({i \in 1..Len(L) : Ty(c, L[i]) = "S"})
                     IN \A i \in 1..n : IF i <= Len(L) /\ Ty(c, L[i]) = "S" THEN Near(e.mu[i], Rd(10000, m), 1) ELSE e.mu[i] = 0
GridGenOK(c, e) ==
    LET L == Cells(c)
        n == Len(L)
    IN Chk(e.n = n /\ Len(e.p) = n, "NumberOfStates")
       \cup Chk(\A i, j \in 1..n, a \in 1..4 : e.p[i][a][j] = PGrid(c, L[i], a, L[j]), "Probabilities")
       \cup Chk(\A i, j \in 1..n, a \in 1..4 : PGrid(c, L[i], a, L[j]) > 0 => e.r[i][a][j] = RGrid(c, L[i], a, L[j]), "Rewards")
       \cup Chk(MuGen(c, e, L, n), "InitialDistribution")
\* taxi: a state is a cell and the set of collected passengers, the first one most significant
Pass(c) == SelectSeq(Cells(c), LAMBDA q : Ty(c, q) = "F")
Bit(c, b, k) == (b \div Pow(2, Len(Pass(c)) - k)) % 2
Got(c, b) == {Pass(c)[k] : k \in {k \in 1..Len(Pass(c)) : Bit(c, b, k) = 1}}
PickUp(c, b, q) == LET K == {k \in 1..Len(Pass(c)) : Pass(c)[k] = q /\ Bit(c, b, k) = 0}
                   IN IF K = {} THEN b ELSE b + Pow(2, Len(Pass(c)) - (CHOOSE k \in K : TRUE))
Side(a) == IF a <= 2 THEN <<<<0, 1>>, <<0, -1>>>> ELSE <<<<1, 0>>, <<-1, 0>>>>
Skip(c, q, b) == Ty(c, q) = "G" \/ (Ty(c, q) = "F" /\ q \notin Got(c, b))
\* in 1/32
PTaxi(c, q, b, a, t, bt) ==
    LET One(d, w) == LET n == Aim(c, q, d) IN IF n = t /\ (IF n = q THEN b ELSE PickUp(c, b, n)) = bt THEN w ELSE 0
    IN One(Dirs[a], 2 * c.prob) + One(Side(a)[1], 16 - c.prob) + One(Side(a)[2], 16 - c.prob)
TaxiGenOK(c, e) ==
    LET L == Cells(c)
        m == Len(L)
        n == m * Pow(2, Len(Pass(c)))
        C(i) == L[((i - 1) % m) + 1]
        B(i) == (i - 1) \div m
    IN Chk(e.n = n /\ Len(e.p) = n, "NumberOfStates")
       \cup Chk(\A i, j \in 1..n, a \in 1..4 : IF Ty(c, C(i)) = "G" THEN e.p[i][a][j] = 0
                                               ELSE Skip(c, C(i), B(i)) \/ e.p[i][a][j] = PTaxi(c, C(i), B(i), a, C(j), B(j)), "Probabilities")
       \cup Chk(\A i, j \in 1..n, a \in 1..4 : (~Skip(c, C(i), B(i)) /\ e.p[i][a][j] > 0) =>
                   IF Ty(c, C(j)) # "G" THEN e.r[i][a][j] = 0
                   ELSE IF c.slip = 0 /\ C(j) # Plus(C(i), Dirs[a]) THEN TRUE
                   ELSE e.r[i][a][j] = c.rew[Cardinality(Got(c, B(j))) + 1], "Rewards")
       \cup Chk(MuGen(c, e, L, n), "InitialDistribution")
\* chain: action 1 moves to the next state, action 2 to the previous one
PChain(c, i, a, j) == LET t == IF a = 1 THEN Min2(i + 1, c.n) ELSE Max2(i - 1, 1)
                      IN (IF j = t THEN c.prob ELSE 0) + (IF j = i THEN 16 - c.prob ELSE 0)
ChainGenOK(c, e) ==
    Chk(e.n = c.n /\ Len(e.p) = c.n, "NumberOfStates")
    \cup Chk(\A i, j \in 1..c.n, a \in 1..2 : e.p[i][a][j] = PChain(c, i, a, j), "Probabilities")
    \cup Chk(\A i, j \in 1..c.n, a \in 1..2 : (PChain(c, i, a, j) > 0) =>
                e.r[i][a][j] = (IF i # j /\ \E g \in 1..Len(c.goals) : c.goals[g] = j THEN c.rew ELSE 0), "Rewards")
Apply(c, s, e) ==
    CASE e.op = "reset" ->
           R([x |-> e.obs],
             IF e.given > 0 THEN Chk(e.obs = e.given, "ResetToState")
             ELSE IF c.k = "finite" THEN Chk(MuOK(c, e.obs), "ResetDistribution")
             ELSE Chk(e.obs = Idx(c, c.start), "ResetToStart"))
      [] e.op = "step" ->
           R([x |-> e.obs],
             IF c.k = "finite"
             THEN Chk(e.obs \in 1..Len(c.p) /\ c.p[s.x][e.a][e.obs] > 0, "Transition")
                  \cup Chk(e.r = c.r[s.x][e.a][e.obs], "Reward") \cup Chk(e.ab = (IF Dead(c, e.obs) THEN 1 ELSE 0), "Absorbing")
             ELSE GridStep(c, s.x, e))
      [] e.op = "freq" -> R(s, Chk(\A y \in 1..Len(c.p) : Freq(e.n, e.cnt[y], IF e.a = 0 THEN (IF c.mu = <<>> THEN 16 \div Len(c.p) ELSE c.mu[y]) ELSE c.p[e.x][e.a][y]),
                                   "SamplingFrequencies"))
      [] e.op = "vhfreq" -> R(s, Chk(Freq(e.n, e.cnt, 8), "RewardFrequencies"))
      [] e.op = "info" -> R(s, Chk(e.nS = c.n /\ e.nA = c.nA /\ e.g = c.g /\ e.hz = c.hz, "EnvironmentInfo"))
      [] e.op = "grid" -> R(s, GridGenOK(c, e))
      [] e.op = "taxi" -> R(s, TaxiGenOK(c, e))
      [] e.op = "chain" -> R(s, ChainGenOK(c, e))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
