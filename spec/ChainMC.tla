------------------------------- MODULE ChainMC --------------------------------
(* Threads that link fresh leaves behind any leaf of the chain, one access at a  *)
(* time.  Faults: "nolock" does not mark, "blind" marks without looking whether  *)
(* it is marked, "late" turns the old neighbour around after publishing,         *)
(* "early" reads the old neighbour before it has the mark.                       *)
EXTENDS Chain
CONSTANTS Threads, Leaves, Fault

VARIABLES nxt, prv, pc, at, new, old, made
vars == <<nxt, prv, pc, at, new, old, made>>
Init == /\ nxt = [n \in 1..Leaves |-> <<0, 0>>] /\ prv = [n \in 1..Leaves |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> 0] /\ new = [t \in Threads |-> 0]
        /\ old = [t \in Threads |-> 0] /\ made = 1
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
InRow(n) == \E i \in DOMAIN Row(nxt) : Row(nxt)[i] = n

Begin(t, a) == /\ pc[t] = "idle" /\ made < Leaves /\ InRow(a)
               /\ made' = made + 1 /\ new' = [new EXCEPT ![t] = made + 1] /\ at' = [at EXCEPT ![t] = a]
               /\ Go(t, "load") /\ UNCHANGED <<nxt, prv, old>>
\* load, wait while it is marked
Load(t) == /\ pc[t] = "load" /\ (MayMark(nxt, at[t]) \/ Fault \in {"nolock", "blind"})
           /\ old' = [old EXCEPT ![t] = nxt[at[t]][1]]
           /\ Go(t, IF Fault = "nolock" THEN "prev" ELSE "mark") /\ UNCHANGED <<nxt, prv, at, new, made>>
\* compare-and-swap
Take(t) == /\ pc[t] = "mark" /\ UNCHANGED <<prv, at, new, made, old>>
           /\ IF nxt[at[t]] = <<old[t], 0>> \/ (Fault = "early" /\ MayMark(nxt, at[t])) \/ Fault = "blind"
              THEN nxt' = Mark(nxt, at[t]) /\ Go(t, "prev")
              ELSE UNCHANGED nxt /\ Go(t, "load")
SetPrev(t) == pc[t] = "prev" /\ prv' = [prv EXCEPT ![new[t]] = at[t]] /\ Go(t, "next") /\ UNCHANGED <<nxt, at, new, old, made>>
SetNext(t) == /\ pc[t] = "next" /\ nxt' = [nxt EXCEPT ![new[t]] = <<old[t], 0>>]
              /\ Go(t, IF Fault = "late" THEN "publish" ELSE "turn") /\ UNCHANGED <<prv, at, new, old, made>>
Turn(t) == /\ pc[t] = "turn" /\ prv' = (IF old[t] = 0 THEN prv ELSE [prv EXCEPT ![old[t]] = new[t]])
           /\ Go(t, IF Fault = "late" THEN "idle" ELSE "publish") /\ UNCHANGED <<nxt, at, new, old, made>>
Pub(t) == /\ pc[t] = "publish" /\ nxt' = Publish(nxt, at[t], new[t])
          /\ Go(t, IF Fault = "late" THEN "turn" ELSE "idle") /\ UNCHANGED <<prv, at, new, old, made>>
Next == \E t \in Threads : \/ \E a \in 1..Leaves : Begin(t, a)
                           \/ Load(t) \/ Take(t) \/ SetPrev(t) \/ SetNext(t) \/ Turn(t) \/ Pub(t)
Spec == Init /\ [][Next]_vars

Back == Whole(nxt, prv)
\* nothing linked is lost, nothing else is there
All == LET busy == {new[t] : t \in {u \in Threads : pc[u] # "idle"}}
       IN  \A n \in 1..made : n \in busy \/ InRow(n)
\* one linker per mark
OneMark == \A n \in 1..Leaves : Marked(nxt, n) =>
              Cardinality({t \in Threads : at[t] = n /\ pc[t] \in {"prev", "next", "turn", "publish"}}) = 1
Quiet == (\A t \in Threads : pc[t] = "idle") => \A n \in 1..Leaves : ~Marked(nxt, n)
ReadyAtPublish == \A t \in Threads : pc[t] = "publish" => Ready(nxt, prv, at[t], new[t])
=============================================================================
