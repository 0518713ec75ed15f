-------------------------------- MODULE MCCore --------------------------------
(* Exhaustive exploration of the run loop: every sequence of at most MaxCalls   *)
(* learn/evaluate calls, every budget up to MaxN, every horizon, every fit       *)
(* frequency, and every choice of the environment (absorbing or not) at every   *)
(* step.  Each completed behaviour is emitted for replay into the real code.    *)
EXTENDS Core, TLC, Json
CONSTANTS MaxN, MaxCalls, Hs, Ks, Ps, Emit
VARIABLES c, s, n, calls, script, fits, all, bad
vars == <<c, s, n, calls, script, fits, all, bad>>

CallEv(mode, ns, ne, init, spf, epf, rd) ==
    [op |-> "call", mode |-> mode, ns |-> ns, ne |-> ne, hasinit |-> IF init = 0 THEN 0 ELSE 1,
     inits |-> [j \in 1..init |-> 900 + j], spf |-> spf, epf |-> epf, render |-> rd, record |-> rd]
Calls(hh) ==
    {CallEv("learn", k, None, 0, j, None, 0) : k \in 0..MaxN, j \in 1..MaxN}
    \cup {CallEv("learn", k, None, 0, None, j, 0) : k \in IF hh = 0 THEN {} ELSE 0..MaxN, j \in 1..2}
    \cup {CallEv("learn", None, k, 0, j, None, 0) : k \in IF hh = 0 THEN {} ELSE 0..2, j \in 1..MaxN}
    \cup {CallEv("learn", None, k, 0, None, j, 0) : k \in IF hh = 0 THEN {} ELSE 0..2, j \in 1..2}
    \cup {CallEv("evaluate", k, None, 0, None, None, 0) : k \in 0..MaxN}
    \cup {CallEv("evaluate", None, k, 0, None, None, 0) : k \in IF hh = 0 THEN {} ELSE 0..2}
    \cup {CallEv("evaluate", None, None, k, None, None, 0) : k \in IF hh = 0 THEN {} ELSE 1..2}

NextEv ==
    CASE s.ph = "idle" -> IF Len(calls) < MaxCalls THEN Calls(c.H) ELSE {}
      [] s.ph = "top" -> IF MoveReq(s)
                         THEN IF s.need
                              THEN LET w == IF s.inits = <<>> THEN None ELSE s.inits[s.totE + 1]
                                   IN {[op |-> "reset", arg |-> w, ret |-> n]}
                              ELSE {[op |-> "draw", x |-> s.x, ps |-> s.ps, a |-> n, nps |-> s.ps, na |-> s.na]}
                         ELSE IF ~s.as THEN {[op |-> "astop"]}
                         ELSE IF ~s.es THEN {[op |-> "estop"]}
                         ELSE {[op |-> "ret", smps |-> s.buf, infos |-> s.inf]}
      [] s.ph = "reset" -> IF ~s.epst THEN {[op |-> "epstart", ps |-> None, th |-> n, info |-> s.raw]}
                           ELSE IF ~PPDone(c, s) THEN {[op |-> IF s.ppc THEN "prec" ELSE "preu", k |-> s.ppk, x |-> s.ppx]}
                           ELSE {[op |-> "draw", x |-> s.ppx, ps |-> s.ps, a |-> n, nps |-> s.ps, na |-> s.na]}
      [] s.ph = "act" -> {[op |-> "step", a |-> s.a, ret |-> n, r |-> n, ab |-> z, info |-> n] : z \in {0, 1}}
      [] s.ph = "post" -> IF ~PPDone(c, s) THEN {[op |-> IF s.ppc THEN "prec" ELSE "preu", k |-> s.ppk, x |-> s.ppx]}
                          ELSE IF s.render = 1 /\ ~s.rend THEN {[op |-> "render", record |-> s.record]}
                          ELSE IF s.record = 1 /\ ~s.rec THEN {[op |-> "rec"]}
                          ELSE IF ~s.cbd THEN {[op |-> "cb", smp |-> FullSample(s)]}
                          ELSE IF ~s.fitd THEN {[op |-> "fit", smps |-> s.buf, infos |-> s.inf, th |-> s.th, na |-> None, stable |-> 1]}
                          ELSE {[op |-> "cbfit", k |-> s.ncb + 1, smps |-> s.fb]}

Init == /\ c \in [H : Hs, K : Ks, P : Ps, epi : {0, 1}, sful : {0}]
        /\ s = InitState /\ n = 1 /\ calls = <<>> /\ script = <<>> /\ fits = <<>> /\ all = <<>> /\ bad = {}

Fin(e) == e.op = "ret"
\* script : one entry per call, the absorbing flags the environment answers
Upd(e) == /\ calls'  = IF e.op = "call" THEN Append(calls, e) ELSE calls
          /\ script' = IF e.op = "call" THEN Append(script, <<>>)
                       ELSE IF e.op = "step" THEN [script EXCEPT ![Len(script)] = Append(@, e.ab)] ELSE script
          /\ fits'   = IF e.op = "call" THEN Append(fits, <<>>)
                       ELSE IF e.op = "fit" THEN [fits EXCEPT ![Len(fits)] = Append(@, e.smps)] ELSE fits
          /\ all'    = IF e.op = "call" THEN Append(all, <<>>)
                       ELSE IF e.op = "cb" THEN [all EXCEPT ![Len(all)] = Append(@, e.smp)] ELSE all

Summary == [H |-> c.H, K |-> c.K, P |-> c.P, epi |-> c.epi, calls |-> calls', script |-> script',
            fits |-> [j \in 1..Len(fits') |-> [q \in 1..Len(fits'[j]) |-> Len(fits'[j][q])]],
            lasts |-> [j \in 1..Len(all') |-> [q \in 1..Len(all'[j]) |-> all'[j][q][6]]]]
Next == \E e \in NextEv :
          LET r == Apply(c, s, e)
          IN /\ s' = r.s /\ bad' = r.bad /\ n' = n + 1 /\ c' = c /\ Upd(e)
             /\ (Emit /\ Fin(e) /\ Len(calls) = MaxCalls) => PrintT("BEHAVIOUR " \o ToJson(Summary))

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

NoClauseViolated == bad = {}
\* the fits of the current call, followed by what is still pending, are exactly the transitions of the call, in order
Partition == (calls # <<>> /\ s.ph # "idle") => all[Len(all)] = Flat(fits[Len(fits)]) \o s.buf
Budget == s.ph # "idle" => /\ s.ns # None => s.totS <= s.ns
                           /\ s.ns = None => s.totE <= NEp(s)
Count(q, v) == Cardinality({j \in 1..Len(q) : q[j][6] = v})
BatchExact == \A j \in 1..Len(calls) : \A q \in 1..Len(fits[j]) :
                /\ calls[j].spf # None => Len(fits[j][q]) = calls[j].spf
                /\ calls[j].epf # None => Count(fits[j][q], 1) = calls[j].epf /\ fits[j][q][Len(fits[j][q])][6] = 1
\* consecutive transitions of an episode are chained, episodes end at absorbing states or at the horizon
Chained == \A j \in 1..Len(all) : \A q \in 1..(Len(all[j]) - 1) : all[j][q][6] = 0 => all[j][q][4] = all[j][q + 1][1]
LastRule == \A j \in 1..Len(all) : \A q \in 1..Len(all[j]) : all[j][q][5] = 1 => all[j][q][6] = 1
NeverLonger == c.H > 0 => s.epS <= c.H
Inv == NoClauseViolated /\ Partition /\ Budget /\ BatchExact /\ Chained /\ LastRule /\ NeverLonger

PsDef == {<<>>, <<<<1, 1000>>, <<2, 0>>>>}
=============================================================================
