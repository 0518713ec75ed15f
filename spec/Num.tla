----------------------------------- MODULE Num -----------------------------------
(* Fixed-point arithmetic within 32-bit integers.                                       *)
EXTENDS Integers, Sequences, FiniteSets
Chk(b, name) == IF b THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
\* integer division rounded to nearest, for any sign
Rd(a, b) == IF a >= 0 THEN ((2 * a) + b) \div (2 * b) ELSE -((((-2) * a) + b) \div (2 * b))
\* m a / b for large a, b > 0
Frm(m, a, b) == IF a >= 0 THEN (m * (a \div b)) + Rd(m * (a % b), b) ELSE -((m * ((-a) \div b)) + Rd(m * ((-a) % b), b))
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE ISq(_, _)
ISq(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE ISq(n, y)
Sqrt(n) == IF n <= 0 THEN 0 ELSE ISq(n, n)
\* product of two numbers in 1e-4
M4(a, b) == Rd((a \div 100) * b, 100) + Rd((a % 100) * b, 10000)
\* 1e6 exp(-y), y >= 0 in 1e-3;  e1[k] = 1e6 exp(1 - k), e2[k] = 1e6 exp((1 - k)/100)
M6(a, b) == Rd((a \div 1000) * b, 1000) + Rd((a % 1000) * b, 1000000)
ExpN(c, y) == IF y >= 13000 THEN 0
              ELSE LET a == y \div 1000
                       b == (y % 1000) \div 10
                       r == y % 10
                   IN M6(M6(c.e1[a + 1], c.e2[b + 1]), 1000000 - (1000 * r) + Rd(r * r, 2))
RECURSIVE BisN(_, _, _, _)
BisN(c, w, lo, hi) == IF hi - lo <= 1 THEN hi
                      ELSE LET m == (lo + hi) \div 2 IN IF ExpN(c, m) > w THEN BisN(c, w, m, hi) ELSE BisN(c, w, lo, m)
\* 1e3 ln of x/1e6, 0 < x <= 1e6
LnUnit(c, x) == IF x >= 1000000 THEN 0 ELSE -BisN(c, x, 0, 13000)
\* 100^n a / b, digit by digit
RECURSIVE Dig(_, _, _)
Dig(a, b, n) == IF n = 0 THEN a \div b ELSE (Pow(100, n) * (a \div b)) + Dig(100 * (a % b), b, n - 1)
\* 1e3 ln(a/b), 0 < a, b < 2e7
LnR(c, a, b) == IF a <= b THEN LnUnit(c, Dig(a, b, 3)) ELSE -LnUnit(c, Dig(b, a, 3))
=============================================================================
