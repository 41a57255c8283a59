------------------------------ MODULE ClaimTrace -------------------------------
(* Recorded calls of several threads on the slots of one leaf.  Each call takes    *)
(* effect at one instant between its call and its return; storing a slice together *)
(* with its length class at two.  Events: [0, thread, op, args...] a call,          *)
(* [1, thread, result] its return.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, val, ik, kx, pend
vars == <<h, l, val, ik, kx, pend>>
NS == 3
None == <<0>>
Init == /\ h \in 1..N /\ l = 1
        /\ val = [s \in 1..NS |-> 0] /\ ik = [s \in 1..NS |-> 0] /\ kx = [s \in 1..NS |-> 0]
        /\ pend = [t \in 1..T[h].nt |-> None]

E == T[h].ev[l]
More == l <= Len(T[h].ev)
\* a pending call: <<1, op, args...>> not yet, <<2, result>> done, <<3, s, k>> and <<4, s, x>> half done
Call == /\ More /\ E[1] = 0 /\ pend[E[2]] = None
        /\ pend' = [pend EXCEPT ![E[2]] = <<1>> \o SubSeq(E, 3, Len(E))]
        /\ l' = l + 1 /\ UNCHANGED <<h, val, ik, kx>>
Return == /\ More /\ E[1] = 1 /\ pend[E[2]] = <<2, E[3]>>
          /\ pend' = [pend EXCEPT ![E[2]] = None]
          /\ l' = l + 1 /\ UNCHANGED <<h, val, ik, kx>>
Becomes(t, r) == pend' = [pend EXCEPT ![t] = r]
\* only calls that return before the trace ends have to take effect, and they do so late
\* enough to matter: an effect is taken only when somebody's return is next
Due == More /\ E[1] = 1
Effect(t) ==
    /\ Due /\ UNCHANGED <<h, l>>
    /\ LET p == pend[t]
       IN CASE p[1] = 1 ->
                 (LET s == p[3]
                 IN CASE p[2] = 1 -> Becomes(t, <<2, val[s]>>) /\ UNCHANGED <<val, ik, kx>>
                      [] p[2] = 2 -> /\ Becomes(t, <<2, IF val[s] = p[4] THEN -1 ELSE val[s]>>)
                                     /\ val' = (IF val[s] = p[4] THEN [val EXCEPT ![s] = p[5]] ELSE val)
                                     /\ UNCHANGED <<ik, kx>>
                      [] p[2] = 3 -> Becomes(t, <<2, val[s]>>) /\ val' = [val EXCEPT ![s] = 0] /\ UNCHANGED <<ik, kx>>
                      [] p[2] = 4 -> Becomes(t, <<2, 0>>) /\ val' = [val EXCEPT ![s] = p[4]] /\ UNCHANGED <<ik, kx>>
                      [] p[2] = 5 -> Becomes(t, <<2, IF val[s] = 0 THEN 1 ELSE 0>>) /\ UNCHANGED <<val, ik, kx>>
                      [] p[2] = 6 -> Becomes(t, <<2, ik[s]>>) /\ UNCHANGED <<val, ik, kx>>
                      [] p[2] = 7 -> Becomes(t, <<2, kx[s]>>) /\ UNCHANGED <<val, ik, kx>>
                      [] p[2] = 8 -> Becomes(t, <<2, 0>>) /\ ik' = [ik EXCEPT ![s] = p[4]] /\ UNCHANGED <<val, kx>>
                      [] p[2] = 9 -> Becomes(t, <<2, 0>>) /\ kx' = [kx EXCEPT ![s] = p[4]] /\ UNCHANGED <<val, ik>>
                      [] p[2] = 10 -> \/ Becomes(t, <<4, s, p[5]>>) /\ ik' = [ik EXCEPT ![s] = p[4]] /\ UNCHANGED <<val, kx>>
                                      \/ Becomes(t, <<3, s, p[4]>>) /\ kx' = [kx EXCEPT ![s] = p[5]] /\ UNCHANGED <<val, ik>>)
            [] p[1] = 3 -> Becomes(t, <<2, 0>>) /\ ik' = [ik EXCEPT ![p[2]] = p[3]] /\ UNCHANGED <<val, kx>>
            [] p[1] = 4 -> Becomes(t, <<2, 0>>) /\ kx' = [kx EXCEPT ![p[2]] = p[3]] /\ UNCHANGED <<val, ik>>
            [] OTHER -> FALSE
Step == Call \/ Return \/ \E t \in DOMAIN pend : Effect(t)
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
