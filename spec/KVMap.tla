------------------------------- MODULE KVMap -------------------------------
(* The abstract object every tree stands for: a map from keys to values with  *)
(* concurrently running lookups and inserts.  An operation is called, takes   *)
(* effect at one instant (Lin), and returns.  0 stands for "no value".        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
    map,      \* key -> current value (0: absent)
    pend      \* thread -> the operation it is running

Get == 0
Ins == 1
OpLen == 2      \* number of entries
OpEmpty == 3    \* is that number zero
OpLong == 4     \* any call with an over-long key
None == 0
Refused == -1

Idle == [st |-> "idle", op |-> 0, key |-> 0, val |-> 0, res |-> 0, clean |-> FALSE]

Inserting(t) == pend[t].st # "idle" /\ pend[t].op = Ins

\* clean: no insert has been in progress at any time since this call
CallStep(t, op, k, v) ==
    /\ pend[t].st = "idle"
    /\ pend' = [u \in DOMAIN pend |->
                  IF u = t
                  THEN [st |-> "called", op |-> op, key |-> k, val |-> v, res |-> 0,
                        clean |-> \A w \in DOMAIN pend : ~Inserting(w)]
                  ELSE IF op = Ins THEN [pend[u] EXCEPT !.clean = FALSE] ELSE pend[u]]
    /\ UNCHANGED map

\* The one instant at which the operation happens.
LinStep(t) ==
    /\ pend[t].st = "called"
    /\ LET p == pend[t] IN
       CASE p.op \in {Get, Ins} ->
              /\ pend' = [pend EXCEPT ![t].st = "done", ![t].res = map[p.key]]
              /\ map' = IF p.op = Ins THEN [map EXCEPT ![p.key] = p.val] ELSE map
         [] p.op = OpLong -> pend' = [pend EXCEPT ![t].st = "done", ![t].res = Refused] /\ UNCHANGED map
         [] OTHER -> pend' = [pend EXCEPT ![t].st = "done"] /\ UNCHANGED map

\* Number of entries.
Count(m) == Cardinality({k \in DOMAIN m : m[k] # None})

\* What the caller sees is what the instant said.  The count is only promised to be
\* exact while no insert runs; `more` entries are outside the keys of `map`
\* (negative: do not look at counts).
RetStep(t, res, more) ==
    /\ pend[t].st = "done"
    /\ LET p == pend[t] IN
       CASE p.op = OpLen -> p.clean /\ more >= 0 => res = Count(map) + more
         [] p.op = OpEmpty -> p.clean /\ more >= 0 => res = (IF Count(map) + more = 0 THEN 1 ELSE 0)
         [] OTHER -> res = p.res
    /\ pend' = [pend EXCEPT ![t] = Idle]
    /\ UNCHANGED map
=============================================================================
