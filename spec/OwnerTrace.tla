----------------------------- MODULE OwnerTrace -----------------------------
(* Recorded life of nodes in the allocator.  Events:                            *)
(*  0 a node made and handed over, with the values in it   1, 2 a guard opens,   *)
(*  begins to close   3 a node is about to be retired   4, 5 teardown begins,    *)
(*  ends   6, 7 drop begins, ends   8 a node's memory was given back   9 how many *)
(*  leaves and interior nodes the allocator says it has   10 a value was dropped  *)
(*  11 the node that came back, the node handed over   12 the end                 *)
EXTENDS Owner, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, node, vals, open, end
vars == <<h, l, node, vals, open, end>>
Init == h \in 1..N /\ l = 1 /\ node = <<>> /\ vals = <<>> /\ open = {} /\ end = FALSE

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
           op == e[1]
           n == e[2]
       IN CASE op = 0 -> /\ node' = Append(node, Own(e[3])) /\ n = Len(node')
                         /\ vals' = Append(vals, {e[4][i] : i \in 1..Len(e[4])}) /\ UNCHANGED <<open, end>>
            [] op = 1 -> open' = open \cup {n} /\ UNCHANGED <<node, vals, end>>
            [] op = 2 -> open' = open \ {n} /\ UNCHANGED <<node, vals, end>>
            [] op = 3 -> node[n][1] = "own" /\ node' = [node EXCEPT ![n] = Wait(open)] /\ UNCHANGED <<vals, open, end>>
            [] op \in {4, 6} -> end' = TRUE /\ UNCHANGED <<node, vals, open>>
            \* then the allocator has nothing
            [] op \in {5, 7} -> /\ end' = FALSE /\ UNCHANGED <<node, vals, open>>
                                /\ \A m \in DOMAIN node : node[m][1] # "own"
            \* with its values, not before
            [] op = 8 -> /\ MayGo(node[n], open, end) /\ vals[n] = {}
                         /\ node' = [node EXCEPT ![n] = Gone] /\ UNCHANGED <<vals, open, end>>
            [] op = 9 -> e[2] = Owned(node, 0) /\ e[3] = Owned(node, 1) /\ UNCHANGED <<node, vals, open, end>>
            [] op = 10 -> \E m \in DOMAIN node :
                             /\ n \in vals[m] /\ MayGo(node[m], open, end)
                             /\ vals' = [vals EXCEPT ![m] = @ \ {n}] /\ UNCHANGED <<node, open, end>>
            [] op = 11 -> e[2] = e[3] /\ UNCHANGED <<node, vals, open, end>>
            [] op = 12 -> /\ UNCHANGED <<node, vals, open, end>>
                          /\ \A m \in DOMAIN node : node[m] = Gone
                          /\ <<e[2], e[3], e[4]>> = <<0, 0, 0>>
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
