------------------------------ MODULE KVMapMC ------------------------------
(* Exhaustive check of the abstract map itself: the consequences the other    *)
(* checks rely on (every stored value is replaced at most once, the last one  *)
(* never, the count is the number of keys ever inserted) follow from it.      *)
EXTENDS KVMap, TLC
CONSTANTS Threads, Keys, MaxOps

VARIABLES
    nops,     \* operations called so far; also the source of fresh values
    rep,      \* value -> how often an insert reported it as replaced
    known     \* keys whose insert has taken effect
vars == <<map, pend, nops, rep, known>>

Vals == 1..MaxOps

Init == /\ map = [k \in Keys |-> None]
        /\ pend = [t \in Threads |-> Idle]
        /\ nops = 0
        /\ rep = [v \in Vals |-> 0]
        /\ known = {}

Call(t) == \E op \in {Get, Ins}, k \in Keys :
              /\ nops < MaxOps
              /\ nops' = nops + 1
              /\ CallStep(t, op, k, IF op = Ins THEN nops + 1 ELSE 0)
              /\ UNCHANGED <<rep, known>>
CallOther(t) == \E op \in {OpLen, OpEmpty, OpLong} :
              /\ nops < MaxOps
              /\ nops' = nops + 1
              /\ CallStep(t, op, CHOOSE k \in Keys : TRUE, 0)
              /\ UNCHANGED <<rep, known>>
Lin(t) == /\ LinStep(t)
          /\ known' = IF pend[t].op = Ins THEN known \cup {pend[t].key} ELSE known
          /\ UNCHANGED <<nops, rep>>
Ret(t) == \E r \in Vals \cup {None, Refused} :
              /\ RetStep(t, r, 0)
              /\ rep' = IF pend[t].op = Ins /\ r # None THEN [rep EXCEPT ![r] = @ + 1] ELSE rep
              /\ UNCHANGED <<nops, known>>
Next == \E t \in Threads : Call(t) \/ CallOther(t) \/ Lin(t) \/ Ret(t)
Fair == \A t \in Threads : WF_vars(Lin(t)) /\ WF_vars(Ret(t))
Spec == Init /\ [][Next]_vars /\ Fair

AtMostOnce == \A v \in Vals : rep[v] <= 1
LastNever == \A k \in Keys : map[k] # None => rep[map[k]] = 0
CountIsKnown == Count(map) = Cardinality(known)
Quiet == \A t \in Threads : pend[t].st = "idle"
\* when nothing runs, every stored value is either current or was reported exactly once
Accounted == Quiet => \A k \in Keys : map[k] # None => map[k] \in Vals
NeverForgotten == [][known \subseteq known' /\ \A k \in Keys : map[k] # None => map'[k] # None]_vars
\* an undisturbed count is the number of keys whose insert has returned
CleanIsExact == \A t \in Threads : pend[t].clean /\ pend[t].st = "done" /\ pend[t].op = OpLen =>
                    Count(map) = Cardinality(known)
\* a refused call changes nothing
RefusedIsNoop == [][\A t \in Threads : pend[t].op = OpLong /\ pend'[t].op = OpLong => map' = map \/ \E u \in Threads \ {t} : pend'[u] # pend[u]]_vars
Completes == \A t \in Threads : pend[t].st = "called" ~> pend[t].st = "idle"
=============================================================================
