------------------------------- MODULE LifeMC -------------------------------
(* How the tree keeps the promises of Life: slots that own one handle of a      *)
(* value each, replaced handles that are retired to a collector and given back  *)
(* when every guard that was active then has been dropped, counted handles for  *)
(* owned results and for a value that moves down into a new layer.              *)
(* Every concrete step is taken together with the step of Life it stands for;   *)
(* giving back the last handle of a value must be a legal Release.              *)
EXTENDS Life, Sequences

CONSTANTS Sessions, Writers, NVals, Fault
MaxBag == 3
Threads == Sessions \cup Writers
Vals == 1..NVals
Keys == {1}
Slots == {"a", "b"}          \* the slot of the key now, and where a split or a new layer puts it

VARIABLES
    slot,     \* slot -> value it owns a handle of, 0: none
    at,       \* the slot that belongs to the key
    rc,       \* value -> number of handles
    guard,    \* active guards
    bin,      \* retired handles: <<value, guards it waits for, serial>>
    pc, loc,  \* thread -> where it is, what it holds
    lock, serial, touched,
    bag,      \* the block the suffixes are in now
    bbin,     \* retired blocks: <<block, guards it waits for>>
    lost      \* blocks given back where Life does not allow it
mc == <<slot, at, rc, guard, bin, pc, loc, lock, serial, touched, bag, bbin, lost>>
bags == <<bag, bbin, lost>>
vars == <<lifeVars, mc>>

MCInit ==
    /\ LifeInit(Keys, Vals, Threads, [k \in Keys |-> 1])
    /\ slot = [s \in Slots |-> IF s = "a" THEN 1 ELSE 0]
    /\ at = "a"
    /\ rc = [v \in Vals |-> IF v = 1 THEN 1 ELSE 0]
    /\ guard = {} /\ bin = {} /\ lock = 0 /\ serial = 0
    /\ pc = [t \in Threads |-> "idle"]
    /\ loc = [t \in Threads |-> 0]
    /\ bag = 1 /\ bbin = {} /\ lost = {}
    /\ touched = {}           \* values that were looked at when their memory was gone

Go(t, p) == pc' = [pc EXCEPT ![t] = p]

\* Life's step for giving back one handle of v
Dropped(v) ==
    IF rc[v] # 1 THEN UNCHANGED lifeVars
    ELSE IF (TRUE = MayRelease(v)) THEN Release(v)
    ELSE life' = [life EXCEPT ![v] = "lost"] /\ UNCHANGED <<cur, wait, act, refs, own, ins, closed, got, free>>
\* Life's step for giving back a block
Freed(b) == IF (TRUE = \A t \in Threads : b \notin got[t]) THEN GiveBack(0, b) /\ UNCHANGED lost
            ELSE lost' = lost \cup {b} /\ UNCHANGED lifeVars
Touch(v) == touched' = IF v # 0 /\ rc[v] = 0 THEN touched \cup {v} ELSE touched

-----------------------------------------------------------------------------
(* Sessions: enter, load the pointer, look at it or take a handle, leave.       *)
SEnter(t) == pc[t] = "idle" /\ Go(t, "in") /\ guard' = guard \cup {t} /\ Enter(t)
             /\ UNCHANGED <<slot, at, rc, bin, loc, lock, serial, touched>>
SLoad(t) == pc[t] = "in" /\ slot[at] # 0 /\ Go(t, "have") /\ loc' = [loc EXCEPT ![t] = slot[at]]
            /\ Refer(t, slot[at]) /\ UNCHANGED <<slot, at, rc, guard, bin, lock, serial, touched>>
SLook(t) == pc[t] = "have" /\ Go(t, "have2") /\ Touch(loc[t]) /\ UNCHANGED <<lifeVars, slot, at, rc, guard, bin, loc, lock, serial>>
SKeep(t) == pc[t] = "have2" /\ Go(t, "kept") /\ Touch(loc[t]) /\ rc' = [rc EXCEPT ![loc[t]] = @ + 1] /\ Keep(loc[t])
            /\ UNCHANGED <<slot, at, guard, bin, loc, lock, serial>>
SLeave(t) == pc[t] \in {"have", "have2", "kept"} /\ Go(t, IF pc[t] = "kept" THEN "owner" ELSE "done")
             /\ guard' = guard \ {t} /\ bin' = {<<b[1], b[2] \ {t}, b[3]>> : b \in bin} /\ Leave(t)
             /\ bbin' = {<<b[1], b[2] \ {t}>> : b \in bbin}
             /\ UNCHANGED <<slot, at, rc, loc, lock, serial, touched, bag, lost>>
\* the owned result is used and given back, possibly after the tree is gone
SUnkeep(t) == pc[t] = "owner" /\ Go(t, "own2") /\ Touch(loc[t]) /\ Unkeep(loc[t]) /\ UNCHANGED <<slot, at, rc, guard, bin, loc, lock, serial>>
SGive(t) == pc[t] = "own2" /\ Go(t, "done") /\ rc' = [rc EXCEPT ![loc[t]] = @ - 1] /\ Dropped(loc[t])
            /\ UNCHANGED <<slot, at, guard, bin, loc, lock, serial, touched>>

-----------------------------------------------------------------------------
(* Writers: one insert each, or one restructuring step.                         *)
Retire(v, g) == bin' = bin \cup {<<v, g, serial>>} /\ serial' = serial + 1

WCall(t) == \E v \in Vals : pc[t] = "idle" /\ CallIns(t, 1, v) /\ Go(t, "called") /\ guard' = guard \cup {t}
              /\ rc' = [rc EXCEPT ![v] = 1] /\ UNCHANGED <<slot, at, bin, loc, lock, serial, touched>>
WLock(t) == pc[t] = "called" /\ lock = 0 /\ lock' = t /\ Go(t, "locked") /\ UNCHANGED <<lifeVars, slot, at, rc, guard, bin, loc, serial, touched>>
WRead(t) == pc[t] = "locked" /\ loc' = [loc EXCEPT ![t] = slot[at]]
            /\ (IF Fault = "retirefirst" THEN Go(t, "retiredfirst") /\ Retire(slot[at], guard)
                ELSE Go(t, "read") /\ UNCHANGED <<bin, serial>>)
            /\ UNCHANGED <<lifeVars, slot, at, rc, guard, lock, touched>>
WSwap(t) == pc[t] \in {"read", "retiredfirst"} /\ slot' = [slot EXCEPT ![at] = ins[t].val] /\ Commit(t)
            /\ Go(t, IF pc[t] = "read" THEN "swapped" ELSE "retired") /\ UNCHANGED <<at, rc, guard, bin, loc, lock, serial, touched>>
\* the collector remembers which guards are active
WRetire(t) == pc[t] = "swapped" /\ Go(t, "retired")
              /\ (CASE Fault = "now" -> rc' = [rc EXCEPT ![loc[t]] = @ - 1] /\ Dropped(loc[t]) /\ UNCHANGED <<bin, serial>>
                   [] Fault = "forget" -> UNCHANGED <<lifeVars, bin, serial, rc>>
                   [] OTHER -> Retire(loc[t], guard) /\ UNCHANGED <<lifeVars, rc>>)
              /\ UNCHANGED <<slot, at, guard, loc, lock, touched>>
WUnlock(t) == pc[t] = "retired" /\ lock' = 0 /\ Go(t, "unlocked") /\ UNCHANGED <<lifeVars, slot, at, rc, guard, bin, loc, serial, touched>>
WRet(t) == pc[t] = "unlocked" /\ RetIns(t, ins[t].old) /\ Go(t, "done") /\ guard' = guard \ {t}
           /\ bin' = {<<b[1], b[2] \ {t}, b[3]>> : b \in bin} /\ bbin' = {<<b[1], b[2] \ {t}>> : b \in bbin}
           /\ UNCHANGED <<slot, at, rc, loc, lock, serial, touched, bag, lost>>

\* a split moves the handle, the new layer gets one of its own and the old one is retired
Other(s) == IF s = "a" THEN "b" ELSE "a"
WSplit(t) == pc[t] = "idle" /\ lock = 0 /\ slot[Other(at)] = 0 /\ Go(t, "done")
             /\ slot' = [slot EXCEPT ![Other(at)] = slot[at], ![at] = IF Fault = "copy" THEN @ ELSE 0]
             /\ at' = Other(at) /\ UNCHANGED <<lifeVars, rc, guard, bin, loc, lock, serial, touched>>
WLayer(t) == pc[t] = "idle" /\ lock = 0 /\ slot[Other(at)] = 0 /\ Go(t, "done")
             /\ slot' = [slot EXCEPT ![Other(at)] = slot[at], ![at] = 0]
             /\ rc' = [rc EXCEPT ![slot[at]] = IF Fault = "steal" THEN @ ELSE @ + 1]
             /\ Retire(slot[at], guard) /\ at' = Other(at)
             /\ UNCHANGED <<lifeVars, guard, loc, lock, touched>>

\* the room for suffixes grows: a new block takes the place of the old one
WGrow(t) == /\ pc[t] = "idle" /\ lock = 0 /\ bag < MaxBag /\ Go(t, "done") /\ bag' = bag + 1
            /\ IF Fault = "bagnow" THEN Freed(bag) /\ UNCHANGED bbin
               ELSE bbin' = bbin \cup {<<bag, guard>>} /\ UNCHANGED <<lifeVars, lost>>
            /\ UNCHANGED <<slot, at, rc, guard, bin, loc, lock, serial, touched>>
BFree == \E b \in bbin : b[2] = {} /\ bbin' = bbin \ {b} /\ Freed(b[1])
            /\ UNCHANGED <<slot, at, rc, guard, bin, pc, loc, lock, serial, touched, bag>>
\* a session compares a suffix before it loads a value
SBag(t) == pc[t] = "in" /\ bag \notin got[t] /\ Got(t, bag) /\ UNCHANGED mc

-----------------------------------------------------------------------------
(* The collector, and the end.                                                 *)
Free == \E b \in bin : b[2] = {} /\ bin' = bin \ {b} /\ rc' = [rc EXCEPT ![b[1]] = @ - 1] /\ Dropped(b[1])
          /\ UNCHANGED <<slot, at, guard, pc, loc, lock, serial, touched>>
AllOut == \A t \in Threads : pc[t] \in {"done", "owner", "own2"}
MClose == AllOut /\ ~closed /\ Close /\ UNCHANGED mc
Tear == closed /\ \E s \in Slots : slot[s] # 0 /\ slot' = [slot EXCEPT ![s] = 0]
          /\ rc' = [rc EXCEPT ![slot[s]] = @ - 1] /\ Dropped(slot[s])
          /\ UNCHANGED <<at, guard, bin, pc, loc, lock, serial, touched>>
Finished == closed /\ bin = {} /\ bbin = {} /\ \A s \in Slots : slot[s] = 0 /\ \A t \in Threads : pc[t] = "done"

MCNext == \/ /\ UNCHANGED bags
             /\ \/ \E t \in Sessions : SEnter(t) \/ SLoad(t) \/ SLook(t) \/ SKeep(t) \/ SUnkeep(t) \/ SGive(t)
                \/ \E t \in Writers : WCall(t) \/ WLock(t) \/ WRead(t) \/ WSwap(t) \/ WRetire(t) \/ WUnlock(t) \/ WSplit(t) \/ WLayer(t)
                \/ Free \/ MClose \/ Tear
          \/ \E t \in Sessions : SLeave(t) \/ SBag(t)
          \/ \E t \in Writers : WRet(t) \/ WGrow(t)
          \/ BFree
          \/ (Finished /\ UNCHANGED vars)
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)

\* nobody looks at memory that was given back
Untouched == touched = {}
\* the last handle is given back only where Life allows the release
Legal == \A v \in Vals : life[v] # "lost"
LegalBlocks == lost = {}
NotTwice == \A v \in Vals : rc[v] >= 0
\* when all is over every value that was handed over has been released, once
AllGone == Finished => \A v \in Vals : life[v] \in {"none", "gone"}
Ends == <>Finished
=============================================================================
