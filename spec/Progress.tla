------------------------------ MODULE Progress ------------------------------
(* Every call returns, and none fails: the part of the recorded histories that  *)
(* is about completion alone, so that histories of many threads can be judged.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Hist)
VARIABLES h, l, run, put
vars == <<h, l, run, put>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev)
NoOp == <<-1, 0>>

Init == /\ h \in 1..N /\ l = 1
        /\ run = [t \in 1..Hist[h].nt |-> NoOp]
        /\ put = {k \in 1..Hist[h].nk : Hist[h].init[k] # 0}
Call == /\ More /\ Ev[1] = 0 /\ run[Ev[2]] = NoOp
        /\ run' = [run EXCEPT ![Ev[2]] = <<Ev[3], Ev[4]>>]
        /\ l' = l + 1 /\ UNCHANGED <<h, put>>
\* operation 4 is a call with an over-long key: it is refused and that is all right
Ret == /\ More /\ Ev[1] = 1 /\ run[Ev[2]] # NoOp
       /\ (Ev[5] = -1) = (run[Ev[2]][1] = 4)
       /\ put' = IF run[Ev[2]][1] = 1 THEN put \cup {run[Ev[2]][2]} ELSE put
       /\ run' = [run EXCEPT ![Ev[2]] = NoOp]
       /\ l' = l + 1 /\ UNCHANGED h
End == /\ l = Len(Hist[h].ev) + 1
       /\ \A t \in DOMAIN run : run[t] = NoOp
       /\ \A k \in put : Hist[h].fin[k] > 0
       /\ Hist[h].others = 0
       /\ l' = l + 1 /\ UNCHANGED <<h, run, put>>
Next == Call \/ Ret \/ End
Spec == Init /\ [][Next]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(Hist[i].ev) + 2
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
