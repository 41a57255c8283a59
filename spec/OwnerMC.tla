------------------------------- MODULE OwnerMC -------------------------------
(* The allocator as it is: a list of nodes per kind, emptied by teardown and      *)
(* drop; retiring takes the node off the list and hands it to the reclaimer,      *)
(* which gives it back once the guards of that time are closed.  Threads retire   *)
(* step by step.  Faults: "keep" leaves it on the list, "now" does not    *)
(* wait for the guards, "half" tears down one kind only.                           *)
EXTENDS Owner
CONSTANTS Nodes, Threads, Fault

VARIABLES node, list, wait, back, open, pc, arg, phase
vars == <<node, list, wait, back, open, pc, arg, phase>>
\* node: what should be; list: per kind, on the list; wait: with the reclaimer; back: times given back
Kind(n) == n % 2
Init == /\ node = [n \in Nodes |-> <<"none">>] /\ list = [k \in 0..1 |-> {}] /\ wait = {} /\ back = [n \in Nodes |-> 0]
        /\ open = {} /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0] /\ phase = "use"

Make(n) == /\ phase = "use" /\ node[n] = <<"none">> /\ node' = [node EXCEPT ![n] = Own(Kind(n))]
           /\ list' = [list EXCEPT ![Kind(n)] = @ \cup {n}] /\ UNCHANGED <<wait, back, open, pc, arg, phase>>
\* a thread has one guard, and retires under it; others just hold theirs
Enter(t) == /\ phase = "use" /\ pc[t] = "idle" /\ open' = open \cup {t} /\ pc' = [pc EXCEPT ![t] = "in"]
            /\ UNCHANGED <<node, list, wait, back, arg, phase>>
Start(t, n) == /\ pc[t] = "in" /\ node[n][1] = "own" /\ node' = [node EXCEPT ![n] = Wait(open)]
               /\ arg' = [arg EXCEPT ![t] = n] /\ pc' = [pc EXCEPT ![t] = "untrack"]
               /\ UNCHANGED <<list, wait, back, open, phase>>
Untrack(t) == /\ pc[t] = "untrack"
              /\ list' = (IF Fault = "keep" THEN list ELSE [list EXCEPT ![Kind(arg[t])] = @ \ {arg[t]}])
              /\ pc' = [pc EXCEPT ![t] = "defer"] /\ UNCHANGED <<node, wait, back, open, arg, phase>>
Defer(t) == /\ pc[t] = "defer" /\ wait' = wait \cup {<<arg[t], open>>}
            /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<node, list, back, open, arg, phase>>
Leave(t) == /\ pc[t] = "in" /\ open' = open \ {t} /\ pc' = [pc EXCEPT ![t] = "idle"]
            \* the thread may come back, but that is another guard
            /\ wait' = {<<w[1], w[2] \ {t}>> : w \in wait}
            /\ node' = [n \in Nodes |-> IF node[n][1] = "wait" THEN Wait(node[n][2] \ {t}) ELSE node[n]]
            /\ UNCHANGED <<list, back, arg, phase>>
Reclaim == \E w \in wait :
            /\ w[2] \cap open = {} \/ Fault = "now"
            /\ wait' = wait \ {w} /\ back' = [back EXCEPT ![w[1]] = @ + 1]
            /\ node' = [node EXCEPT ![w[1]] = IF MayGo(@, open, FALSE) THEN Gone ELSE <<"early">>]
            /\ UNCHANGED <<list, open, pc, arg, phase>>
Tear == /\ phase = "use" /\ \A t \in Threads : pc[t] \in {"idle", "in"}
        /\ phase' = "end"
        /\ LET gone == IF Fault = "half" THEN list[0] ELSE list[0] \cup list[1]
           IN /\ back' = [n \in Nodes |-> back[n] + (IF n \in gone THEN 1 ELSE 0)]
              /\ node' = [n \in Nodes |-> IF n \in gone THEN Gone ELSE node[n]]
              /\ list' = [k \in 0..1 |-> list[k] \ gone]
        /\ UNCHANGED <<wait, open, pc, arg>>
Next == \/ \E n \in Nodes : Make(n) \/ \E t \in Threads : Start(t, n)
        \/ \E t \in Threads : Enter(t) \/ Untrack(t) \/ Defer(t) \/ Leave(t)
        \/ Reclaim \/ Tear
Spec == Init /\ [][Next]_vars

Once == \A n \in Nodes : back[n] <= 1
InTime == \A n \in Nodes : node[n] # <<"early">>
\* what is on a list is the allocator's, unless it is being retired just now
Lists == \A n \in Nodes : n \in list[Kind(n)] => node[n][1] = "own" \/ \E t \in Threads : arg[t] = n /\ pc[t] = "untrack"
AllBack == (phase = "end" /\ wait = {} /\ open = {}) => \A n \in Nodes : node[n] \in {Gone, <<"none">>} /\ back[n] = (IF node[n] = Gone THEN 1 ELSE 0)
=============================================================================
