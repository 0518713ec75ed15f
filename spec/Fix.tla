----------------------------------- MODULE Fix -----------------------------------
(* Fixed point in 1e-6: products, quotients, roots, trigonometry, exponential.            *)
EXTENDS Num
One == 1000000
Pi == 3141593
HalfPi == 1570796
\* product in 1e-6, |a b| < 1000
Mp(a, b) == LET ah == a \div 1000
                al == a % 1000
                bh == b \div 1000
                bl == b % 1000
            IN (ah * bh) + Rd((al * bh) + (ah * bl), 1000)
\* quotient in 1e-6, 0 < b < 20
Dv(a, b) == IF a >= 0 THEN Dig(a, b, 3) ELSE -Dig(-a, b, 3)
Wrap(x) == LET y == (x + Pi) % (2 * Pi) IN y - Pi
AngNear(x, y, t) == Near(x, y, t) \/ Near(Abs(x - y), 2 * Pi, t + 3)
Clip(x, lo, hi) == Max2(lo, Min2(hi, x))
RECURSIVE Hor(_, _, _)
Hor(q, k, d) == IF k >= d THEN One ELSE One - Rd(Mp(q, Hor(q, k + 2, d)), k * (k + 1))
SinP(x) == Mp(x, Hor(Mp(x, x), 2, 18))
CosP(x) == Hor(Mp(x, x), 1, 18)
Sin(x) == SinP(Wrap(x))
Cos(x) == CosP(Wrap(x))
SqrtP(a) == LET y == 100 * Sqrt(100 * a) IN IF y = 0 THEN 0 ELSE (y + Dv(a, y)) \div 2
\* 1e6 exp(-y), y >= 0 in 1e-6
ExpS(c, y) == IF y >= 12900000 THEN 0 ELSE LET z == (y + 500) \div 1000
              IN LET d == y - (1000 * z) IN Mp(ExpN(c, z), One - d)
=============================================================================
