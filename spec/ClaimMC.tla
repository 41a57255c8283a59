-------------------------------- MODULE ClaimMC --------------------------------
(* How slots of a leaf are claimed without its lock: look at the permutation, claim  *)
(* a slot that is not live by a compare-and-swap on its value, store the key, then    *)
(* publish by a compare-and-swap on the permutation, or give the slot back.           *)
(* Faults: "early" stores the key before claiming, "blind" claims by a plain store,   *)
(* "keep" does not give the slot back after a failed publication, "push" publishes    *)
(* by a plain store.                                                                  *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, NSlots, Fault

VARIABLES val, ik, perm, pc, at, seen
vars == <<val, ik, perm, pc, at, seen>>
Slots == 1..NSlots
Init == /\ val = [s \in Slots |-> 0] /\ ik = [s \in Slots |-> 0] /\ perm = {}
        /\ pc = [t \in Threads |-> "look"] /\ at = [t \in Threads |-> 0] /\ seen = [t \in Threads |-> {}]
Go(t, x) == pc' = [pc EXCEPT ![t] = x]

Look(t) == /\ pc[t] = "look" /\ seen' = [seen EXCEPT ![t] = perm]
           /\ \E s \in Slots \ perm : at' = [at EXCEPT ![t] = s]
           /\ Go(t, IF Fault = "early" THEN "store" ELSE "claim") /\ UNCHANGED <<val, ik, perm>>
Claim(t) == /\ pc[t] = "claim" /\ UNCHANGED <<ik, perm, at, seen>>
            /\ IF val[at[t]] = 0 \/ Fault = "blind"
               THEN val' = [val EXCEPT ![at[t]] = t] /\ Go(t, IF Fault = "early" THEN "publish" ELSE "store")
               ELSE Go(t, "look") /\ UNCHANGED val
Store(t) == /\ pc[t] = "store" /\ ik' = [ik EXCEPT ![at[t]] = t]
            /\ Go(t, IF Fault = "early" THEN "claim" ELSE "publish") /\ UNCHANGED <<val, perm, at, seen>>
Publish(t) == /\ pc[t] = "publish" /\ UNCHANGED <<val, ik, at, seen>>
              /\ IF perm = seen[t] \/ Fault = "push"
                 THEN perm' = seen[t] \cup {at[t]} /\ Go(t, "done")
                 ELSE UNCHANGED perm /\ Go(t, IF Fault = "keep" THEN "look" ELSE "back")
Back(t) == /\ pc[t] = "back" /\ val' = [val EXCEPT ![at[t]] = IF @ = t THEN 0 ELSE @]
           /\ Go(t, "look") /\ UNCHANGED <<ik, perm, at, seen>>
Next == \E t \in Threads : Look(t) \/ Claim(t) \/ Store(t) \/ Publish(t) \/ Back(t)
Spec == Init /\ [][Next]_vars

\* a live slot has the key and the value of one thread
Whole == \A s \in perm : val[s] # 0 /\ ik[s] = val[s]
Once == \A t \in Threads : Cardinality({s \in perm : val[s] = t}) = (IF pc[t] = "done" THEN 1 ELSE 0)
Clean == (\A t \in Threads : pc[t] \in {"done", "look"}) => \A s \in Slots \ perm : val[s] = 0
=============================================================================
