--------------------------------- MODULE Param ---------------------------------
(* Parameters and their schedules: each index has its own number of uses, a use     *)
(* advances only its own index, reading does not advance, and the value is the one   *)
(* of the schedule, clipped to its bounds.  Values on the grid 1/VS, weights w on 1/(16*VS) *)
(* c.k: const, linear, decay (exponent c.e: 1, 2, or 0 for one half), varinc,        *)
(* vardec, winvar; c.a initial value, c.b threshold (16ths), c.n steps; c.lo, c.hi   *)
(* bounds (16ths, None when absent); c.t tolerance of the variance; c.w window;      *)
(* c.m number of indices (1: shared by all indices)                                  *)
EXTENDS Integers, Sequences
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
VS == 4096
None == -1000
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, d) == Abs(x - y) <= d
Clip(c, v) == LET u == IF c.lo # None /\ v < (c.lo * VS) \div 16 THEN (c.lo * VS) \div 16 ELSE v
              IN IF c.hi # None /\ u > (c.hi * VS) \div 16 THEN (c.hi * VS) \div 16 ELSE u
IsVar(c) == c.k \in {"varinc", "vardec", "winvar"}
Start(c) == [j \in 1..c.m |-> [n |-> 0, xs |-> <<>>, w |-> 0, p |-> 0]]
Ix(c, i) == IF c.m = 1 THEN 1 ELSE i
RECURSIVE Sum(_, _)
Sum(xs, f) == IF xs = <<>> THEN 0 ELSE (IF f = 1 THEN Head(xs) ELSE Head(xs) * Head(xs)) + Sum(Tail(xs), f)
LastN(xs, w) == IF Len(xs) <= w THEN xs ELSE SubSeq(xs, Len(xs) - w + 1, Len(xs))
\* variance of the targets seen so far, as a fraction (unbiased; or over the window)
VarFrac(c, xs) == LET ys == IF c.k = "winvar" THEN LastN(xs, c.w) ELSE xs
                      n == Len(ys)
                  IN <<n * Sum(ys, 2) - Sum(ys, 1) * Sum(ys, 1), IF c.k = "winvar" THEN n * n ELSE n * (n - 1)>>
VarValue(c, x) == IF x.n < 2 THEN (c.a * VS) \div 16
                  ELSE LET v == VarFrac(c, x.xs)
                           sg == (((v[1] * x.w) \div v[2]) + 8) \div 16
                       IN IF c.k = "vardec" THEN (c.t * VS * VS) \div (sg + c.t * VS)
                          ELSE (sg * VS) \div (sg + c.t * VS)
\* schedule value after n uses
Sched(c, n) ==
    CASE c.k = "const"  -> (c.a * VS) \div 16
      [] c.k = "linear" -> ((c.a * c.n + (c.b - c.a) * (IF n < c.n THEN n ELSE c.n)) * VS) \div (16 * c.n)
      [] c.k = "decay"  -> LET k == IF n < 1 THEN 1 ELSE n IN (c.a * VS) \div (16 * (IF c.e = 1 THEN k ELSE k * k))
\* is v the value of index x?
Good(c, x, v) ==
    IF IsVar(c) THEN Near(v, Clip(c, x.p), 1)
    ELSE IF c.k = "decay" /\ c.e = 0
         THEN \* v = clip(a / sqrt(n)): compare squares
              LET k == IF x.n < 1 THEN 1 ELSE x.n
                  lo == IF c.lo = None THEN -1 ELSE (c.lo * VS) \div 16
                  hi == IF c.hi = None THEN 100 * VS ELSE (c.hi * VS) \div 16
                  a == (c.a * VS) \div 16
                  sq(u) == (u * u) \div VS
              IN /\ v >= lo - 1 /\ v <= hi + 1
                 /\ (v > lo + 1 /\ v < hi - 1) => Near(sq(v) * k, sq(a), 4 * k + 4)
                 /\ (v <= lo + 1) => sq(lo) * k >= sq(a) - 4 * k
                 /\ (v >= hi - 1) => sq(hi) * k <= sq(a) + 4 * k
         ELSE Near(v, Clip(c, Sched(c, x.n)), 2)
Use(c, x, e, p) ==
    IF ~IsVar(c) THEN [x EXCEPT !.n = @ + 1]
    ELSE LET fp == (e.f * p) \div 4
         IN [n |-> x.n + 1, xs |-> Append(x.xs, e.x), p |-> p, w |-> (((((VS - fp) * (VS - fp) + VS \div 2) \div VS) * x.w + VS \div 2) \div VS) + (fp * fp + 128) \div 256]

Apply(c, s, e) ==
    CASE e.op = "call" ->
           LET j == Ix(c, e.i)
               x == s[j]
               p == IF IsVar(c) THEN VarValue(c, x) ELSE 0
               ok == IF IsVar(c) THEN Near(e.v, Clip(c, p), 8) ELSE Good(c, Use(c, x, e, 0), e.v)
               \* unclipped values are re-read from the implementation so that rounding does not accumulate
               q == IF IsVar(c) /\ Clip(c, p) = p THEN e.v ELSE p
           IN R([s EXCEPT ![j] = Use(c, x, e, q)], Chk(ok, "ValueOfSchedule"))
      [] e.op = "upd" ->
           LET j == Ix(c, e.i) x == s[j]
           IN R([s EXCEPT ![j] = Use(c, x, e, IF IsVar(c) THEN VarValue(c, x) ELSE 0)], {})
      [] e.op = "get" -> R(s, Chk(IF IsVar(c) THEN Near(e.v, Clip(c, s[Ix(c, e.i)].p), 8) ELSE Good(c, s[Ix(c, e.i)], e.v), "ReadingDoesNotAdvance"))
      [] e.op = "meta" -> R(s, Chk(e.init = c.a /\ e.size = c.m, "InitialValueAndShape"))
      [] e.op = "exc" -> R(s, {"UnexpectedException"})
      [] e.op = "end" -> R(s, {})
=============================================================================
