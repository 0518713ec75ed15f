----------------------------- MODULE MCSeqReplay -----------------------------
(* The index arithmetic used to cut sequences out of the ring buffer (start of the *)
(* window, write pointer, last end of episode, previous actions) only yields runs  *)
(* admitted by the spec: every capacity, length, pattern of episode ends, slot.    *)
EXTENDS SeqReplay, TLC
CONSTANTS MaxCap, MaxLen, MaxTrunc
VARIABLES c, h
Init == c \in [max : 1..MaxCap, trunc : 1..MaxTrunc] /\ h = <<>>
Next == Len(h) < MaxLen /\ UNCHANGED c
        /\ \E l \in {0, 1} : LET k == Len(h) + 1 IN h' = Append(h, <<10 * k, 1000 + k, k, 10 * k + 1, 0, l, -1, -1>>)
full == Len(h) >= c.max
idx == Len(h) % c.max
Phys(i) == \* 0-based slot -> position in h
    IF full THEN (IF i < idx THEN Len(h) - idx + i + 1 ELSE Len(h) - c.max - idx + i + 1) ELSE i + 1
Slot(i) == h[Phys(i)]
Max2(a, b) == IF a > b THEN a ELSE b
Cut(i) ==
    LET b0 == Max2(i - c.trunc + 1, 0)
        fm == IF full THEN idx ELSE 0
        b1 == IF b0 < fm /\ fm <= i THEN fm ELSE b0
        ends == {j \in b1..(i - 1) : Slot(j)[6] = 1}
        more == ends # {}
        b2 == IF more THEN (CHOOSE j \in ends : \A m \in ends : m <= j) + 1 ELSE b1
        zero == more \/ b2 \in {0, fm} \/ Slot(b2 - 1)[6] = 1
    IN [rows |-> [j \in 1..(i - b2 + 1) |-> LET g == Slot(b2 + j - 1) IN
            <<g[1], g[2], g[4], g[7], g[8], IF j = 1 THEN (IF zero THEN 0 ELSE Slot(b2 - 1)[2]) ELSE Slot(b2 + j - 2)[2]>>],
        r |-> Slot(i)[3], ab |-> 0, last |-> Slot(i)[6]]
Sound == \A i \in 0..(Stored(c, h) - 1) : Match(c, h, Cut(i))
=============================================================================
