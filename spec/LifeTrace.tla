----------------------------- MODULE LifeTrace -----------------------------
(* Are the recorded lives of values behaviours of Life?  An event is           *)
(* <<code, a, b, c>>; taking effect is not recorded, TLC chooses when.          *)
EXTENDS Life, Sequences, TLC, TLCExt, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Hist)
CONSTANT Judge    \* what else is looked at when all is over: "values", "access", "memory"

VARIABLES h, l
vars == <<lifeVars, h, l>>
H == Hist[h]
Ev == H.ev[l]
More == l <= Len(H.ev)
Vals == {H.ids[i] : i \in 1..Len(H.ids)}

TraceInit == /\ h \in 1..N
             /\ l = 1
             /\ LifeInit(1..Len(Hist[h].init), {Hist[h].ids[i] : i \in 1..Len(Hist[h].ids)}, 1..Hist[h].nt, [k \in 1..Len(Hist[h].init) |-> Hist[h].init[k]])

Step == /\ More
        /\ l' = l + 1 /\ UNCHANGED h
        /\ CASE Ev[1] = 0 -> CallIns(Ev[2], Ev[3], Ev[4])
             [] Ev[1] = 1 -> RetIns(Ev[2], Ev[3])
             [] Ev[1] = 2 -> Enter(Ev[2])
             [] Ev[1] = 3 -> Leave(Ev[2])
             [] Ev[1] = 4 -> Refer(Ev[2], Ev[3])
             [] Ev[1] = 5 -> Keep(Ev[2])
             [] Ev[1] = 6 -> Look(Ev[2], Ev[3])
             [] Ev[1] = 7 -> Release(Ev[2])
             [] Ev[1] = 8 -> Close
             [] Ev[1] = 9 -> (H.counted = 1 => OnlyOwned) /\ UNCHANGED lifeVars
             [] Ev[1] = 10 -> IF H.counted = 1 THEN Unkeep(Ev[2]) ELSE UNCHANGED lifeVars
             [] Ev[1] = 11 -> Got(Ev[2], Ev[3])
             [] Ev[1] = 12 -> IF "access" \in Judge THEN GiveBack(Ev[2], Ev[3]) ELSE UNCHANGED lifeVars
             [] Ev[1] = 13 -> Through(Ev[2])
Effect == /\ More
          /\ \E t \in DOMAIN ins : Commit(t)
          /\ UNCHANGED <<h, l>>

MemoryOK ==
    /\ "values" \in Judge => H.early = 0 /\ H.wrong = 0 /\ H.leakedvals = 0 /\ H.doublevals = 0
    /\ "access" \in Judge => H.uaf = 0 /\ H.dirty = 0
    /\ "memory" \in Judge => H.leaked = 0 /\ H.double = 0 /\ H.dirty = 0 /\ H.allocs = H.frees
End == /\ l = Len(H.ev) + 1
       /\ H.counted = 1 => \A v \in DOMAIN life : life[v] = "gone"
       /\ MemoryOK
       /\ l' = l + 1 /\ UNCHANGED <<lifeVars, h>>

TraceNext == Step \/ Effect \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(Hist[i].ev) + 2
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
