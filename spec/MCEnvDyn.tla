-------------------------------- MODULE MCEnvDyn --------------------------------
(* Design: on a grid of states and actions the equations of motion respect the laws they  *)
(* stand for: trigonometry, the work done on the car, the mirror symmetry of pole,         *)
(* pendulum and segway, conservation of the energy of the free pendulum, exactly one       *)
(* outcome of every ship step up to rounding, and a car that cannot drive straight up.     *)
EXTENDS EnvDyn, TLC
CONSTANTS Angles, Vels, Us, Poss
VARIABLES th, w, u, p, n, car
AnglesD == {0, 400000, -1200000, 2500000}
VelsD == {0, 700000, -2000000}
UsD == {0, 1500000, -4000000}
PossD == {-900000, -500000, 300000, 700000}
AnglesT == {k * 450000 : k \in -6..6}
VelsT == {k * 1300000 : k \in -2..2}
UsT == {k * 2000000 : k \in -2..2}
PossT == {k * 100000 : k \in -9..9}
Cp == [k |-> "pole", m |-> 2 * One, M |-> 8 * One, l |-> 500000, g |-> 9800000]
Cd == [k |-> "pend", m |-> One, l |-> One, g |-> 9800000, mu |-> 0]
Cs == [k |-> "seg"]
Cc == [k |-> "car"]
Csh == [f |-> 150, gs |-> <<100 * One, 120 * One>>, gd |-> <<One, -One>>, gl |-> 20]
Init == /\ th \in Angles /\ w \in Vels /\ u \in Us /\ p \in Poss /\ n = 0 /\ car = <<-500000, 0>>
\* the car from rest, driving right all the time
Next == n < 20 /\ th = 0 /\ w = 0 /\ u = 0 /\ n' = n + 1 /\ car' = To(Cc, car, 4 * One) /\ UNCHANGED <<th, w, u, p>>
Neg(x) == [i \in 1..Len(x) |-> -x[i]]
Close(x, y, t) == \A i \in 1..Len(x) : Near(x[i], y[i], t)
Trig == Near(Mp(Sin(th), Sin(th)) + Mp(Cos(th), Cos(th)), One, 6) /\ Near(Sin(2 * th), 2 * Mp(Sin(th), Cos(th)), 12) /\ Near(Cos(th + HalfPi), -Sin(th), 8)
Work == LET y == To(Cc, <<p, w>>, u) IN
        ((p < 0) = (y[1] < 0) /\ Abs(p) > 250000) => Near(Energy(y) - Energy(<<p, w>>), Mp(u, y[1] - p), 400)
Mirror == /\ Close(To(Cp, <<-th, -w>>, -u), Neg(To(Cp, <<th, w>>, u)), 30)
          /\ Close(To(Cd, <<-th, -w>>, -u), Neg(To(Cd, <<th, w>>, u)), 30)
          /\ Close(To(Cs, <<-th, -w, 0>>, -u), Neg(To(Cs, <<th, w, 0>>, u)), 60)
PendEnergy == LET y == To(Cd, <<th, w>>, u)
                  En(x) == (Mp(x[2], x[2]) \div 2) + Mp(9800000, Cos(x[1]))
              IN Near(En(y) - En(<<th, w>>), Mp(u, y[1] - th), 60)
Ship == LET S == Sail(Csh, <<110 * One + th, 110 * One + p, th, 0>>, u, 3) IN
        S # {} /\ Cardinality(S) <= 4 /\ \A z \in S : z.x[1] \in 0..(150 * One) /\ z.x[2] \in 0..(150 * One)
\* the hill cannot be climbed by driving right from the start
CannotClimb == car[1] < 0 /\ Abs(car[2]) < 3 * One
=============================================================================
