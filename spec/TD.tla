---------------------------------- MODULE TD ----------------------------------
(* Tabular temporal difference learning.  Numbers are fixed point: a value v is   *)
(* the integer round(v * S).  The specification gives, for each algorithm, the    *)
(* set of tables that one transition may produce (random choices inside the       *)
(* algorithm, e.g. which table is updated or which greedy action is picked, are   *)
(* nondeterminism); everything outside the updated entry must stay as it was.     *)
(*                                                                                *)
(* c.alg, c.nS, c.nA, c.nT (tables), c.g (discount in 16ths), c.prec1             *)
(* c.lr / c.lb : schedules [k |-> "const"|"decay"|"linear", a, b, n, per] in 16ths *)
(* c.eps (in 8ths) the exploration of an eps-greedy policy, c.off, c.usedelta     *)
(* State: q (sequence of tables), aux tables, lo..hi an interval for the average  *)
(* reward, and the set of possible visit counters.                                *)
EXTENDS Integers, Sequences, FiniteSets

Chk(b, name) == IF b THEN {} ELSE {name}
S == 4096
Tol == 3
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= Tol
Max(q) == CHOOSE x \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : x >= q[k]
Min2(x, y) == IF x <= y THEN x ELSE y
MinSet(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxSet(X) == CHOOSE x \in X : \A y \in X : x >= y

\* ------------------------------------------------------------------ schedules
\* index of the counter used for the pair (s, a)
CIdx(c, p, s, a) == IF p.per = "one" THEN 1 ELSE (s - 1) * c.nA + a
NCnt(c, p) == IF p.per = "one" THEN 1 ELSE c.nS * c.nA
\* value after the n-th use as a fraction <<num, den>>
Val(p, n) == CASE p.k = "const"  -> <<p.a, 16>>
               [] p.k = "decay"  -> <<p.a, 16 * n>>
               [] p.k = "linear" -> <<p.a * p.n + (p.b - p.a) * Min2(n, p.n), 16 * p.n>>
Mul(f, x) == (f[1] * x) \div f[2]

\* ------------------------------------------------------------------ targets
\* one update towards r + gamma * qn:  16 S-scaled error, then the learning rate
Towards(c, f, q, r, qn) == q + Mul(f, 16 * r * S + c.g * qn - 16 * q) \div 16
Row(t, s) == t[s]
Zeros(c, v) == [s \in 1..c.nS |-> [a \in 1..c.nA |-> v]]

Start(c) == [q |-> [k \in 1..c.nT |-> Zeros(c, 0)], old |-> Zeros(c, 0), qt |-> Zeros(c, 0), rt |-> Zeros(c, 0),
             lo |-> 0, hi |-> 0,
             cnt |-> {[k \in 1..c.nT |-> [j \in 1..NCnt(c, c.lr) |-> 0]]}, cb |-> [j \in 1..NCnt(c, c.lb) |-> 0]]

Greedy(row) == {a \in 1..Len(row) : \A b \in 1..Len(row) : row[b] <= row[a] + 1}
\* expected value under eps-greedy (eps in 8ths); exact ties share the greedy probability
Expect(c, row) == LET m == {a \in 1..c.nA : row[a] = Max(row)}
                      RECURSIVE Sum(_)
                      Sum(a) == IF a = 0 THEN 0 ELSE row[a] + Sum(a - 1)
                  IN (c.eps * Sum(c.nA)) \div (8 * c.nA) + ((8 - c.eps) * Max(row)) \div 8
Pointwise(f(_), n) == [k \in 1..n |-> f(k)]
Ens(c, q, s) == [a \in 1..c.nA |-> MinSet({q[k][s][a] : k \in 1..c.nT})]

Same(t, u) == \A s \in 1..Len(t) : \A a \in 1..Len(t[s]) : t[s][a] = u[s][a]
SameBut(t, u, s, a) == \A x \in 1..Len(t) : \A y \in 1..Len(t[x]) : <<x, y>> # <<s, a>> => t[x][y] = u[x][y]

\* values the bootstrap may take for table k of the algorithms with one value per table
NextQ(c, s, e, k) ==
    IF e.ab = 1 THEN {0}
    ELSE CASE c.alg = "q"        -> {Max(s.q[1][e.s2])}
           [] c.alg = "sarsa"    -> {s.q[1][e.s2][e.na]}
           [] c.alg = "esarsa"   -> {Expect(c, s.q[1][e.s2])}
           [] c.alg = "double"   -> {s.q[3 - k][e.s2][a] : a \in Greedy(s.q[k][e.s2])}
           [] c.alg = "maxmin"   -> {Max(Ens(c, s.q, e.s2))}
           [] c.alg = "weighted" -> {s.q[1][e.s2][a] : a \in 1..c.nA}

InHull(x, X) == \E f \in X : \E g \in X : f <= x + Tol /\ x <= g + Tol

\* candidates <<table index, counters>> that explain the observed tables
Explains(c, s, e, k, cn) ==
    LET j == CIdx(c, c.lr, e.s, e.a)
        n == cn[k][j] + 1
        f == Val(c.lr, n)
        q == s.q[k][e.s][e.a]
        new == e.q[k][e.s][e.a]
        X == {Towards(c, f, q, e.r, x) : x \in NextQ(c, s, e, k)}
    IN /\ \A m \in 1..c.nT : m # k => Same(s.q[m], e.q[m])
       /\ SameBut(s.q[k], e.q[k], e.s, e.a)
       /\ IF c.alg = "weighted" /\ c.prec1 = 0 THEN InHull(new, X) ELSE \E x \in X : Near(new, x)
Bump(c, cn, k, e) == [cn EXCEPT ![k][CIdx(c, c.lr, e.s, e.a)] = @ + 1]

FitOne(c, s, e) ==
    LET C == {<<k, cn>> \in (1..c.nT) \X s.cnt : Explains(c, s, e, k, cn)}
    IN R([s EXCEPT !.q = e.q, !.cnt = IF C = {} THEN s.cnt ELSE {Bump(c, x[2], x[1], e) : x \in C}],
         Chk(C # {}, "UpdateRule"))

\* speedy Q-learning: Q + alpha (T old - Q) + (1 - alpha) (T Q - T old)
Speedy(c, s, e) ==
    LET cn == CHOOSE x \in s.cnt : TRUE
        f == Val(c.lr, cn[1][CIdx(c, c.lr, e.s, e.a)] + 1)
        mc == IF e.ab = 1 THEN 0 ELSE Max(s.q[1][e.s2])
        mo == IF e.ab = 1 THEN 0 ELSE Max(s.old[e.s2])
        q == s.q[1][e.s][e.a]
        d == (c.g * (mc - mo)) \div 16
        x == Towards(c, f, q, e.r, mo) + d - Mul(f, d)
    IN R([s EXCEPT !.q = e.q, !.old = s.q[1], !.cnt = {Bump(c, cn, 1, e)}],
         Chk(SameBut(s.q[1], e.q[1], e.s, e.a) /\ Near(e.q[1][e.s][e.a], x), "UpdateRule"))

\* R-learning: undiscounted, relative to the average reward rho (an interval here)
RLearn(c, s, e) ==
    LET cn == CHOOSE x \in s.cnt : TRUE
        f == Val(c.lr, cn[1][CIdx(c, c.lr, e.s, e.a)] + 1)
        q == s.q[1][e.s][e.a]
        qn == IF e.ab = 1 THEN 0 ELSE Max(s.q[1][e.s2])
        U(rho) == q + Mul(f, e.r * S - rho + qn - q)
        new == e.q[1][e.s][e.a]
        row == e.q[1][e.s]
        bi == CIdx(c, c.lb, e.s, e.a)
        others == {row[a] : a \in (1..c.nA) \ {e.a}}
        surely == \A x \in others : x < new - 1
        never  == \E x \in others : x > new + 1
        fb == Val(c.lb, s.cb[bi] + 1)
        V(rho, slack) == rho + Mul(fb, e.r * S + qn - new - rho) + slack
        lo2 == V(s.lo, -2)
        hi2 == V(s.hi, 2)
    IN R([s EXCEPT !.q = e.q, !.cnt = {Bump(c, cn, 1, e)},
                   !.lo = IF never THEN s.lo ELSE IF surely THEN lo2 ELSE Min2(s.lo, lo2),
                   !.hi = IF never THEN s.hi ELSE IF surely THEN hi2 ELSE MaxSet({s.hi, hi2}),
                   \* the schedule of beta only advances when it is used: constant schedules only when this is ambiguous
                   !.cb = IF never THEN s.cb ELSE [s.cb EXCEPT ![bi] = @ + 1]],
         Chk(SameBut(s.q[1], e.q[1], e.s, e.a) /\ U(s.hi) - Tol <= new /\ new <= U(s.lo) + Tol, "UpdateRule"))

\* RQ-learning: separate estimates of the reward and of the next value
RQ(c, s, e) ==
    LET cn == CHOOSE x \in s.cnt : TRUE
        f == Val(c.lr, cn[1][CIdx(c, c.lr, e.s, e.a)] + 1)
        bi == CIdx(c, c.lb, e.s, e.a)
        fb == Val(c.lb, s.cb[bi] + 1)
        rt == s.rt[e.s][e.a] + Mul(f, e.r * S - s.rt[e.s][e.a])
        qn == IF c.off = 1 THEN Max(s.q[1][e.s2]) ELSE s.q[1][e.s2][e.na]
        dq == qn - s.qt[e.s][e.a]
        qt == IF e.ab = 1 THEN s.qt[e.s][e.a]
              ELSE s.qt[e.s][e.a] + (IF c.usedelta = 1 THEN Mul(f, Mul(fb, dq)) ELSE Mul(fb, dq))
    IN R([s EXCEPT !.q = e.q, !.rt = e.rt, !.qt = e.qt, !.cnt = {Bump(c, cn, 1, e)},
                   !.cb = IF e.ab = 1 THEN s.cb ELSE [s.cb EXCEPT ![bi] = @ + 1]],
         Chk(SameBut(s.q[1], e.q[1], e.s, e.a) /\ SameBut(s.rt, e.rt, e.s, e.a) /\ SameBut(s.qt, e.qt, e.s, e.a)
             /\ Near(e.rt[e.s][e.a], rt) /\ Near(e.qt[e.s][e.a], qt)
             /\ Near(e.q[1][e.s][e.a], e.rt[e.s][e.a] + (c.g * e.qt[e.s][e.a]) \div 16), "UpdateRule"))

Fit(c, s, e) ==
    CASE c.alg \in {"q", "sarsa", "esarsa", "double", "maxmin", "weighted"} -> FitOne(c, s, e)
      [] c.alg = "speedy" -> Speedy(c, s, e)
      [] c.alg = "r"      -> RLearn(c, s, e)
      [] c.alg = "rq"     -> RQ(c, s, e)

\* the values followed by the policy: the average of the tables, or their minimum for maxmin
PolicyQ(c, q, s) == IF c.alg = "maxmin" THEN Ens(c, q, s)
                    ELSE IF c.alg = "double" THEN [a \in 1..c.nA |-> (q[1][s][a] + q[2][s][a]) \div 2]
                    ELSE q[1][s]
OnPolicy(c) == c.alg = "sarsa" \/ (c.alg = "rq" /\ c.off = 0)

Apply(c, s, e) ==
    CASE e.op = "fit"  -> LET r == Fit(c, s, e)
                              okna == IF OnPolicy(c) /\ e.ab = 0 THEN e.na \in 1..c.nA ELSE (OnPolicy(c) \/ e.na = 0)
                          IN IF OnPolicy(c) /\ e.ab = 0 /\ ~(e.na \in 1..c.nA) THEN R(s, {"NextActionChosenByPolicy"})
                             ELSE R(r.s, r.bad \cup Chk(okna, "NextActionChosenByPolicy"))
      \* an action drawn after an on-policy update is the one the update used
      [] e.op = "draw" -> R(s, Chk(e.a \in 1..c.nA /\ (e.na # 0 => e.a = e.na), "PendingActionUsed"))
      \* the value used by the policy is the learned one
      [] e.op = "greedy" -> R(s, Chk(e.g # <<>> /\ \A k \in 1..Len(e.g) : e.g[k] \in Greedy(PolicyQ(c, s.q, e.s)), "PolicyFollowsLearnedValues"))
      [] e.op = "init" -> R([s EXCEPT !.q = e.q, !.old = IF c.alg = "speedy" THEN e.old ELSE s.old], {})
      [] e.op = "same" -> R(s, Chk(e.q = s.q, "SavedAndLoadedTables"))
      [] e.op = "exc"  -> R(s, {"UnexpectedException"})
      [] e.op = "end"  -> R(s, {})
=============================================================================
