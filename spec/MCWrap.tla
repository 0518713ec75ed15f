---------------------------------- MODULE MCWrap ----------------------------------
(* Design: an Atari game driven by any policy and losing lives at any time.  The wrapper     *)
(* restarts the game exactly when it is over, shows at most c.h frames, and every number of   *)
(* lives it reports is the one of the game; the wrapper's calls are computed as it should do  *)
(* them and judged by the same operator that judges the real ones.                            *)
EXTENDS Wrap, TLC
CONSTANTS Depth, H, MaxLives, Ends
VARIABLES s, g, t, bad, must
\* g: lives of the game, 0 over;  must: what has to be called next ("reset" or "any")
C == [w |-> "atari", h |-> H, skip |-> 0, max |-> 1, fire |-> 1, noop |-> 1, lives |-> MaxLives, ends |-> Ends, height |-> 2, width |-> 2]
Call(nm, a, d, l) == [c |-> nm, a |-> <<a>>, o |-> <<t, t>>, r |-> 1, d |-> d, l |-> l]
Init == s = Start(C) /\ g = 0 /\ t = 1 /\ bad = {} /\ must = "reset"
DoReset ==
    LET calls == IF s.real = 1 THEN <<Call("reset", 0, 0, MaxLives)>> ELSE <<>>
        obs == IF s.real = 1 THEN [i \in 1..H |-> <<t, t>>] ELSE s.hist
        r == Apply(C, s, [op |-> "reset", calls |-> calls, obs |-> obs, shape |-> <<H, 2, 2>>])
    IN s' = r.s /\ bad' = r.bad /\ g' = (IF s.real = 1 THEN MaxLives ELSE g) /\ must' = "any" /\ t' = t + 1
DoStep ==
    \E a \in {1, 2}, lose \in {0, 1}, m \in 0..1 :
       /\ must = "any"
       /\ g > 0
       /\ LET l == g - lose
              over == IF l = 0 THEN 1 ELSE 0
              calls == (IF s.fire = 1 THEN <<Call("step", 1, 0, g)>> ELSE <<>>)
                       \o (IF s.first = 1 /\ m = 1 THEN <<Call("step", 0, 0, g)>> ELSE <<>>)
                       \o <<Call("step", a, over, l)>>
              ab == IF over = 1 \/ (lose = 1 /\ Ends = 1) THEN 1 ELSE 0
              r == Apply(C, s, [op |-> "step", a |-> <<a>>, calls |-> calls, obs |-> Push(s.hist, <<t, t>>), r |-> 1, ab |-> ab, inf |-> l])
          IN s' = r.s /\ bad' = r.bad /\ g' = l /\ must' = (IF ab = 1 THEN "reset" ELSE "any") /\ t' = t + 1
Next == TLCGet("level") <= Depth /\ (DoReset \/ DoStep)
Accepted == bad = {}
LivesRight == must = "any" => s.lives = g
RestartOnlyWhenOver == (g = 0 => s.real = 1) /\ (s.real = 1 => (g = 0 \/ s.first = 1))
HistoryIsRecent == s.hist # <<>> => Len(s.hist) = H /\ \A i \in 1..(H - 1) : s.hist[i][1] <= s.hist[i + 1][1]
=============================================================================
