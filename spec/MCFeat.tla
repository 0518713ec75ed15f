---------------------------------- MODULE MCFeat ----------------------------------
(* Design: generated tilings cover the whole range; neighbouring tilings are displaced,   *)
(* so that points a tile apart differ in every tiling and equal points agree; the numbers  *)
(* of monomials are the binomial ones; normalised functions sum to one.                    *)
EXTENDS Feat
CONSTANTS Ns, Nts, W
VARIABLES c, x
Cfg(n, nt, uni) == [k |-> "gen", lo |-> <<-4>>, hi |-> <<-4 + W>>, n |-> <<n>>, nt |-> nt, uni |-> uni]
Init == /\ c \in {Cfg(n, nt, uni) : n \in Ns, nt \in Nts, uni \in {0, 1}}
        /\ x \in (-8)..(W + 4)
Next == UNCHANGED <<c, x>>
P(v) == <<62500 * v>>
Covered == x \in (-4)..(-5 + W) => \A k \in 0..(c.nt - 1) : \E i \in GenIx(c, k, P(x)) : i # -1
Inside == \A k \in 0..(c.nt - 1) : GenIx(c, k, P(x)) \subseteq (-1)..(c.n[1] - 1)
Monotone == \A k \in 0..(c.nt - 1), y \in (-4)..(-5 + W) :
              (y > x /\ x >= -4) => \E i \in GenIx(c, k, P(x)), j \in GenIx(c, k, P(y)) : i <= j
\* a full tile apart: different in every tiling
TileW == (W * c.nt * 62500) \div ((c.n[1] * c.nt) - c.nt + 1)
Apart == \A y \in (-4)..(-5 + W) : (x >= -4 /\ 62500 * (y - x) > TileW) => \A k \in 0..(c.nt - 1) : GenIx(c, k, P(x)) \cap GenIx(c, k, P(y)) \subseteq {-1}
RECURSIVE Bin(_, _)
Bin(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Bin(n - 1, k - 1) + Bin(n - 1, k)
Monos == \A d \in 1..3, g \in 0..3 : Cardinality(Exps(d, g)) = Bin(d + g, g) /\ \A e \in Exps(d, g) : Sum(e) <= g
Cn == [nrm |-> 1]
Unit == LET y == Normal(Cn, <<Abs(62500 * x) + 1000, 500000, 20000>>) IN Near(Sum(y), One, 4)
=============================================================================
