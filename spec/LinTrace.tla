------------------------------ MODULE LinTrace -----------------------------
(* Are the recorded histories behaviours of KVMap?  Each line of the file     *)
(* TRACE is one history of one tree: initial bindings, the calls and returns  *)
(* in the order they happened, and what was found afterwards.                 *)
(* An event is <<0, thread, op, key, value>> or <<1, thread, 0, 0, result>>.   *)
(* Taking effect is not recorded: TLC chooses when.  Effects only happen just *)
(* before a return; an effect before a call commutes with the call.           *)
EXTENDS KVMap, TLC, TLCExt, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Hist)

CONSTANT CheckCount   \* judge the number of entries too
VARIABLES h, l
vars == <<map, pend, h, l>>

Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev)

TraceInit == /\ h \in 1..N
             /\ l = 1
             /\ map = [k \in 1..Hist[h].nk |-> Hist[h].init[k]]
             /\ pend = [t \in 1..Hist[h].nt |-> Idle]

TraceCall == /\ More /\ Ev[1] = 0
             /\ CallStep(Ev[2], Ev[3], Ev[4], Ev[5])
             /\ l' = l + 1 /\ UNCHANGED h
TraceRet == /\ More /\ Ev[1] = 1
            /\ RetStep(Ev[2], Ev[5], IF CheckCount THEN Hist[h].untouched ELSE -1)
            /\ l' = l + 1 /\ UNCHANGED h
\* only useful while the operation that returns next has not taken effect
TraceLin == /\ More /\ Ev[1] = 1
            /\ pend[Ev[2]].st = "called"
            /\ \E t \in DOMAIN pend : LinStep(t)
            /\ UNCHANGED <<h, l>>
\* afterwards: every key holds what the map says, nothing else was disturbed
FinalOK == /\ \A k \in DOMAIN map : map[k] = Hist[h].fin[k]
           /\ Hist[h].others = 0
TraceEnd == /\ l = Len(Hist[h].ev) + 1
            /\ FinalOK
            /\ l' = l + 1
            /\ UNCHANGED <<map, pend, h>>

TraceNext == TraceCall \/ TraceRet \/ TraceLin \/ TraceEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* registers: how far each history was matched
Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(Hist[i].ev) + 2
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
