------------------------------- MODULE Life -------------------------------
(* The life of values.  A value is handed over by an insert, becomes current  *)
(* at the instant the insert takes effect, is replaced at the instant another  *)
(* one does, and is released once: never while it is current, never while a     *)
(* session that was open when it was replaced is still open, never while an    *)
(* owned result refers to it.  A session is a stretch of operations under one  *)
(* guard; references obtained in it live as long as it.                        *)
(* The same for the memory the tree is made of: a block whose address a thread  *)
(* has read in the operation or session it is in is not given back by another.  *)
EXTENDS Naturals, Integers, FiniteSets

VARIABLES
    cur,     \* key -> current value, 0: none
    life,    \* value -> "none" (not handed over), "mine" (of a running insert), "cur", "old", "gone"
    wait,    \* replaced value -> the sessions it must outlive
    act,     \* open sessions (one per thread)
    refs,    \* thread -> values its session refers to
    own,     \* value -> number of owned results
    ins,     \* thread -> its running insert
    closed,  \* the tree is being dropped
    got,     \* thread -> blocks it has read the address of in this operation or session
    free     \* blocks that were given back
lifeVars == <<cur, life, wait, act, refs, own, ins, closed, got, free>>

NoIns == [st |-> "idle", key |-> 0, val |-> 0, old |-> 0]

LifeInit(Keys, Vals, Threads, c0) ==
    /\ cur = c0
    /\ life = [v \in Vals |-> IF \E k \in Keys : c0[k] = v THEN "cur" ELSE "none"]
    /\ wait = [v \in Vals |-> {}]
    /\ act = {}
    /\ refs = [t \in Threads |-> {}]
    /\ own = [v \in Vals |-> 0]
    /\ ins = [t \in Threads |-> NoIns]
    /\ closed = FALSE
    /\ got = [t \in Threads |-> {}]
    /\ free = {}

\* key 0: a key that will be refused
CallIns(t, k, v) ==
    /\ ins[t].st = "idle" /\ life[v] = "none" /\ ~closed
    /\ ins' = [ins EXCEPT ![t] = [st |-> "run", key |-> k, val |-> v, old |-> 0]]
    /\ life' = [life EXCEPT ![v] = "mine"]
    /\ UNCHANGED <<cur, wait, act, refs, own, closed, got, free>>

Commit(t) ==
    /\ ins[t].st = "run" /\ ins[t].key # 0
    /\ LET k == ins[t].key   v == ins[t].val   o == cur[k] IN
       /\ life[v] = "mine"
       /\ cur' = [cur EXCEPT ![k] = v]
       /\ life' = [w \in DOMAIN life |-> IF w = v THEN "cur" ELSE IF w = o THEN "old" ELSE life[w]]
       /\ wait' = [w \in DOMAIN wait |-> IF w = o THEN act ELSE wait[w]]
       /\ ins' = [ins EXCEPT ![t].st = "done", ![t].old = o]
    /\ UNCHANGED <<act, refs, own, closed, got, free>>

\* res -1: refused (or failed), the value is the tree's to release
RetIns(t, res) ==
    /\ \/ ins[t].st = "done" /\ res = ins[t].old /\ UNCHANGED life
       \/ ins[t].st = "run" /\ res = -1
          /\ life' = [life EXCEPT ![ins[t].val] = IF @ = "mine" THEN "old" ELSE @]
    /\ ins' = [ins EXCEPT ![t] = NoIns]
    /\ UNCHANGED <<cur, wait, act, refs, own, closed, got, free>>

Enter(t) == t \notin act /\ ~closed /\ act' = act \cup {t} /\ UNCHANGED <<cur, life, wait, refs, own, ins, closed, got, free>>
Leave(t) ==
    /\ t \in act
    /\ act' = act \ {t}
    /\ refs' = [refs EXCEPT ![t] = {}]
    /\ wait' = [v \in DOMAIN wait |-> wait[v] \ {t}]
    /\ got' = [got EXCEPT ![t] = {}]
    /\ UNCHANGED <<cur, life, own, ins, closed, free>>

There(v) == v \in DOMAIN life /\ life[v] \in {"cur", "old"}
Refer(t, v) == t \in act /\ There(v) /\ refs' = [refs EXCEPT ![t] = @ \cup {v}]
               /\ UNCHANGED <<cur, life, wait, act, own, ins, closed, got, free>>
Keep(v) == There(v) /\ own' = [own EXCEPT ![v] = @ + 1] /\ UNCHANGED <<cur, life, wait, act, refs, ins, closed, got, free>>
Unkeep(v) == own[v] > 0 /\ own' = [own EXCEPT ![v] = @ - 1] /\ UNCHANGED <<cur, life, wait, act, refs, ins, closed, got, free>>
\* what is seen through a reference or an owned result
Look(v, seen) == v = seen /\ There(v) /\ UNCHANGED lifeVars

MayRelease(v) ==
    \/ life[v] = "mine"                     \* by an insert that does not take effect
    \/ /\ own[v] = 0
       /\ \/ life[v] = "old" /\ wait[v] = {} /\ \A t \in DOMAIN refs : v \notin refs[t]
          \/ life[v] = "cur" /\ closed
Release(v) ==
    /\ v \in DOMAIN life /\ MayRelease(v)
    /\ life' = [life EXCEPT ![v] = "gone"]
    /\ UNCHANGED <<cur, wait, act, refs, own, ins, closed, got, free>>

\* blocks
Got(t, b) == b \notin free /\ got' = [got EXCEPT ![t] = @ \cup {b}]
             /\ UNCHANGED <<cur, life, wait, act, refs, own, ins, closed, free>>
\* the end of an operation outside a session
Through(t) == t \notin act /\ got' = [got EXCEPT ![t] = {}]
              /\ UNCHANGED <<cur, life, wait, act, refs, own, ins, closed, free>>
GiveBack(t, b) == /\ b \notin free /\ \A u \in DOMAIN got \ {t} : b \notin got[u]
                  /\ free' = free \cup {b}
                  /\ UNCHANGED <<cur, life, wait, act, refs, own, ins, closed, got>>

Close == /\ ~closed /\ act = {} /\ \A t \in DOMAIN ins : ins[t].st = "idle"
         /\ closed' = TRUE /\ UNCHANGED <<cur, life, wait, act, refs, own, ins, got, free>>
\* after the tree is gone only owned results are left
OnlyOwned == \A v \in DOMAIN life : There(v) => own[v] > 0
=============================================================================
