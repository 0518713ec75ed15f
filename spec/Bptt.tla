---------------------------------- MODULE Bptt ----------------------------------
(* Recurrent PPO.  For every transition of the data the networks see the last c.l states of   *)
(* its own episode up to it, with the policy state at the beginning of that window.            *)
(* e.d: rows [s, h, r, ns, nh, ab, last] with integer states; values scaled by U.              *)
EXTENDS Integers, Sequences, FiniteSets
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
U == 4096
Start(c) == [n |-> 0, h |-> 0, fresh |-> 1]
Max2(a, b) == IF a > b THEN a ELSE b
\* the first row of the window of row i
First(c, d, i) == LET lo == Max2(1, i - c.l + 1)
                      cut == {j \in lo..(i - 1) : d[j].last = 1}
                  IN IF cut = {} THEN lo ELSE (CHOOSE j \in cut : \A k \in cut : k <= j) + 1
Window(c, d, i) == LET f == First(c, d, i) IN [q |-> [k \in 1..(i - f + 1) |-> d[f + k - 1].s], h |-> d[f].h]
NextWindow(c, d, i) == LET f == First(c, d, i) IN [q |-> [k \in 1..(i - f + 1) |-> d[f + k - 1].ns], h |-> d[f].nh]
\* the networks of the harness
RECURSIVE Weighted(_, _)
Weighted(q, k) == IF k > Len(q) THEN 0 ELSE (k * q[k]) + Weighted(q, k + 1)
V(w) == ((Weighted(w.q, 1) + w.h) % 15) - 7
Hid(h, s) == (3 * h + s) % 11
--------------------------------------------------------------------------------
\* gamma = c.g / 2, lambda = c.lam / 2
RECURSIVE Adv(_, _, _)
Adv(c, d, i) ==
    LET own == U * (d[i].r - V(Window(c, d, i)))
        boot == IF d[i].ab = 1 THEN 0 ELSE (c.g * U * V(NextWindow(c, d, i))) \div 2
    IN IF d[i].last = 1 \/ i = Len(d) THEN own + boot
       ELSE own + boot + ((c.g * c.lam * Adv(c, d, i + 1)) \div 4)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
--------------------------------------------------------------------------------
\* policy states along the data: zero at the beginning of an episode, then the network's
Chained(s, d) == \A i \in 1..Len(d) :
    /\ d[i].nh = Hid(d[i].h, d[i].s)
    /\ d[i].h = (IF i = 1 THEN (IF s.fresh = 1 THEN 0 ELSE s.h) ELSE IF d[i - 1].last = 1 THEN 0 ELSE d[i - 1].nh)
RECURSIVE Newton(_, _)
Newton(x, y) == LET z == (y + (x \div y)) \div 2 IN IF z >= y THEN y ELSE Newton(x, z)
Isqrt(x) == IF x = 0 THEN 0 ELSE Newton(x, IF x > 65536 THEN x \div 256 + 1 ELSE x)
\* the clipped objective: no push once the ratio has moved beyond the range in its direction
Pushes(c, x, a, tol) ==
    LET near == Abs(x.g - a) <= tol
        none == x.g = 0
        out == (a > 0 /\ x.ratio > 1000 + c.eps) \/ (a < 0 /\ x.ratio < 1000 - c.eps)
        edge == Abs(x.ratio - (1000 + c.eps)) <= 2 \/ Abs(x.ratio - (1000 - c.eps)) <= 2 \/ Abs(a) <= tol
    IN IF edge THEN near \/ none ELSE IF out THEN none ELSE near
Fit(c, s, e) ==
    LET d == e.d
        n == Len(d)
        w == <<>> \o [i \in 1..n |-> Window(c, d, i)]
        nw == <<>> \o [i \in 1..n |-> NextWindow(c, d, i)]
        a == <<>> \o [i \in 1..n |-> Adv(c, d, i)]
        seen == {e.values[j] : j \in 1..Len(e.values)}
        tot == Sum(a)
        m == <<>> \o [i \in 1..n |-> ((n * a[i]) - tot) \div (32 * n)]
        sd == Isqrt(Sum([i \in 1..n |-> m[i] * m[i]]) \div (n - 1))
        flat == sd < 32
        adv == <<>> \o [i \in 1..n |-> IF flat THEN 0 ELSE (1000 * m[i]) \div sd]
        tol == <<>> \o [i \in 1..n |-> IF flat THEN 0 ELSE 4 + ((4000 + (2 * Abs(adv[i]))) \div sd)]
        final == SelectSeq(e.policy, LAMBDA x : x.b = e.last)
    IN R([s EXCEPT !.n = @ + n, !.h = d[n].nh, !.fresh = d[n].last],
         Chk(Chained(s, d), "PolicyStatesFollowTheEpisode")
         \cup Chk(seen = {w[i] : i \in 1..n} \cup {nw[i] : i \in 1..n}, "ValuesOfTheWindows")
         \cup Chk(Len(e.critic) = n * c.cep /\ \A i \in 1..n : Cardinality({j \in 1..Len(e.critic) : e.critic[j].i = i}) = c.cep, "CriticSeesEveryTransition")
         \cup Chk(\A j \in 1..Len(e.critic) : LET x == e.critic[j] IN x.i \in 1..n /\ x.w = w[x.i], "CriticSeesTheWindow")
         \cup Chk(\A j \in 1..Len(e.critic) : LET x == e.critic[j] IN x.i \in 1..n /\ x.y = a[x.i] + (U * V(w[x.i])), "TargetsOfTheCritic")
         \cup Chk(Len(e.policy) = n * c.pep /\ \A i \in 1..n : Cardinality({j \in 1..Len(e.policy) : e.policy[j].i = i}) = c.pep, "PolicySeesEveryTransition")
         \cup Chk(\A j \in 1..Len(e.policy) : LET x == e.policy[j] IN x.i \in 1..n /\ x.w = w[x.i], "PolicySeesTheWindow")
         \cup Chk(flat \/ \A j \in 1..Len(e.policy) : LET x == e.policy[j] IN x.i \in 1..n /\ (x.ok = 1 => Pushes(c, x, adv[x.i], tol[x.i])), "PolicyFollowsItsAdvantages")
         \cup Chk(flat \/ (\E j \in 1..Len(final) : final[j].ratio # 1000 \/ final[j].i \notin 1..n)
                  \/ Abs((e.gs * Len(final)) + (c.ent * Len(final)) + Sum([j \in 1..Len(final) |-> (adv[final[j].i] * (final[j].z - 1000)) \div 1000]))
                     <= Sum([j \in 1..Len(final) |-> 4 + ((tol[final[j].i] * (final[j].z + 1000)) \div 1000)]), "EntropyIsRewarded"))
Apply(c, s, e) ==
    CASE e.op = "end" -> R(s, {})
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "fit" -> Fit(c, s, e)
      [] e.op = "loaded" -> R(s, Chk(e.got = e.want, "SavedAndLoaded"))
      [] OTHER -> R(s, {"UnknownEvent"})
=============================================================================
