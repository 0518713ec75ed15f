------------------------------ MODULE MCExtraInfo ------------------------------
(* Laws of the flattening of vectorized side information, for every mask.         *)
EXTENDS ExtraInfo, FiniteSets
CONSTANTS MaxT, MaxN
VARIABLES q, mask, n
Init == n \in 1..MaxN /\ q = <<>> /\ mask = <<>>
Next == /\ Len(q) < MaxT
        /\ \E m \in [1..n -> {0, 1}] : /\ mask' = Append(mask, m)
                                       /\ q' = Append(q, [j \in 1..n |-> <<10 * (Len(q) + 1) + j>>])
        /\ n' = n
F == Flatten(q, mask, n)
Size == Len(F) = Cardinality({<<k, j>> \in (1..Len(q)) \X (1..n) : mask[k][j] = 1})
EnvMajor == \A a, b \in 1..Len(F) : a < b => LET x == F[a][1][1] y == F[b][1][1] IN
                 (x % 10 < y % 10) \/ (x % 10 = y % 10 /\ x \div 10 < y \div 10)
Faithful == \A a \in 1..Len(F) : LET x == F[a][1][1] IN mask[x \div 10][x % 10] = 1
Inv == Size /\ EnvMajor /\ Faithful
=============================================================================
