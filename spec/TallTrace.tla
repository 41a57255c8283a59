----------------------------- MODULE TallTrace -----------------------------
(* Tall trees.  Each line of TRACE is one run over keys 1..nk, cut into phases. *)
(* In a phase some keys are inserted once each - by one of several threads, in   *)
(* any order relative to the others - and others, which no insert of the phase    *)
(* touches, are looked up meanwhile.  The map before the phase therefore          *)
(* determines every result of it, whatever the interleaving.                     *)
(*   ins[k]     what the insert of key k returned, -2 where k was not inserted     *)
(*   gs, xs     the keys looked up and what the lookups returned                   *)
(*   len, emp   of the map after the phase                                        *)
(* The value inserted for key k in phase v is (v-1)*nk + k; 0 is absence and -1     *)
(* an error or a panic.                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)

VARIABLES h, l, m, n
vars == <<h, l, m, n>>

Ph == T[h].ph[l]

Init == /\ h \in 1..N
        /\ l = 1
        /\ m = [k \in 1..T[h].nk |-> 0]
        /\ n = 0

Step ==
    /\ l <= Len(T[h].ph)
    /\ LET p == Ph IN
       /\ Len(p.ins) = T[h].nk /\ Len(p.xs) = Len(p.gs)
       /\ TRUE = (\A k \in DOMAIN m : p.ins[k] \in {-2, m[k]})
       /\ TRUE = (\A i \in 1..Len(p.gs) : p.ins[p.gs[i]] = -2 /\ p.xs[i] = m[p.gs[i]])
       /\ m' = [k \in DOMAIN m |-> IF p.ins[k] # -2 THEN (l - 1) * T[h].nk + k ELSE m[k]]
       /\ n' = n + Cardinality({k \in DOMAIN m : p.ins[k] # -2 /\ m[k] = 0})
       /\ p.len = n'
       /\ p.emp = (IF n' = 0 THEN 1 ELSE 0)
    /\ l' = l + 1 /\ UNCHANGED h
Spec == Init /\ [][Step]_vars

\* at the end of a run all keys have been inserted and looked at
Whole == l = Len(T[h].ph) + 1 => n = T[h].nk /\ Len(T[h].ph[l - 1].gs) = T[h].nk
Made == \A k \in DOMAIN m : m[k] = 0 \/ (m[k] - k) % T[h].nk = 0

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ph) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
