------------------------------ MODULE SlotTrace ------------------------------
(* Recorded handling of values in slots and behind raw pointers.  Every event    *)
(* ends with, per value so far, how often it is held (shared values) or how many *)
(* blocks of it exist (inline values: only raw pointers have blocks).            *)
EXTENDS Slot, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, slots, outs, raws
vars == <<h, l, slots, outs, raws>>
Init == h \in 1..N /\ l = 1 /\ slots = <<Empty, Empty, Empty, Empty>> /\ outs = <<>> /\ raws = <<>>

\* a slot's holding counts once per slot, which is what Holders counts
Seen(obs) ==
    /\ Len(obs) = Len(outs')
    /\ \A v \in 1..Len(obs) :
         obs[v] = IF T[h].arc = 1 THEN Holders(slots', outs', raws', v) ELSE Raws(raws', v)
Put(s, c) == slots' = [slots EXCEPT ![s] = c]

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
           op == e[1]
       IN CASE op = 1 -> /\ outs' = Append(outs, 1) /\ e[2] = Len(outs) + 1 /\ e[3] = e[2] /\ UNCHANGED <<slots, raws>> /\ Seen(e[4])
            [] op = 2 -> Put(e[2], Holds(e[3])) /\ outs' = Add(outs, e[3], -1) /\ UNCHANGED raws /\ Seen(e[4])
            [] op = 3 -> e[3] = ValueIn(slots[e[2]]) /\ outs' = Add(outs, e[3], 1) /\ UNCHANGED <<slots, raws>> /\ Seen(e[4])
            [] op = 4 -> /\ e[4] = ValueIn(slots[e[2]])
                         /\ Put(e[2], Holds(e[3])) /\ outs' = Add(Add(outs, e[3], -1), e[4], 1) /\ UNCHANGED raws /\ Seen(e[5])
            [] op = 5 -> slots' = [slots EXCEPT ![e[3]] = slots[e[2]], ![e[2]] = Empty] /\ UNCHANGED <<outs, raws>> /\ Seen(e[4])
            [] op = 6 -> Put(e[3], slots[e[2]]) /\ UNCHANGED <<outs, raws>> /\ Seen(e[4])
            [] op = 7 -> Put(e[2], Layer(e[3])) /\ UNCHANGED <<outs, raws>> /\ Seen(e[4])
            [] op = 9 -> outs' = Add(outs, e[2], -1) /\ UNCHANGED <<slots, raws>> /\ Seen(e[3])
            [] op = 10 -> raws' = With(raws, e[2], e[3]) /\ UNCHANGED <<slots, outs>> /\ Seen(e[4])
            [] op = 11 -> e[3] = raws[e[2]] /\ outs' = Add(outs, e[3], 1) /\ UNCHANGED <<slots, raws>> /\ Seen(e[4])
            [] op = 12 -> raws' = With(raws, e[2], e[3]) /\ outs' = Add(outs, e[3], -1) /\ UNCHANGED slots /\ Seen(e[4])
            [] op = 13 -> raws' = Without(raws, e[2]) /\ UNCHANGED <<slots, outs>> /\ Seen(e[3])
            [] op = 14 -> /\ UNCHANGED <<slots, outs, raws>> /\ Seen(e[7])
                          /\ LET c == slots[e[2]] IN e[3] = <<1, 2, 4>>[c[1] + 1] /\ e[4] = ValueIn(c) /\ e[5] = LayerIn(c) /\ e[6] = 1
            [] op = 15 -> /\ UNCHANGED <<slots, outs, raws>> /\ Seen(e[5])
                          /\ LET c == slots[e[2]] IN e[3] = ValueIn(c) /\ e[4] = LayerIn(c)
            \* everything was dropped
            [] op = 16 -> /\ slots' = <<>> /\ raws' = <<>> /\ outs' = [v \in 1..Len(outs) |-> 0] /\ Seen(e[2])
            \* blocks never given back, given back twice, written afterwards
            [] op = 17 -> UNCHANGED <<slots, outs, raws>> /\ <<e[2], e[3], e[4]>> = <<0, 0, 0>>
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
