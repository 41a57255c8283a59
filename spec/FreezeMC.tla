------------------------------- MODULE FreezeMC -------------------------------
(* The word as the code keeps it, one access at a time: the freezer loads and    *)
(* then exchanges, publishers load, compute and exchange, a setter stores under  *)
(* the lock.  How = "store" is a freezer that stores instead of exchanging;      *)
(* Ignore is a publisher that does not know the mark.                            *)
EXTENDS Freeze, TLC
CONSTANTS Pubs, MaxVal, How, Ignore

VARIABLES word, lock, fpc, floaded, pc, exp, won, lost, next
vars == <<word, lock, fpc, floaded, pc, exp, won, lost, next>>
\* won: values published while frozen; lost: published values nobody took over

Init == /\ word = Word(0, FALSE) /\ lock = 0 /\ fpc = "idle" /\ floaded = 0
        /\ pc = [p \in Pubs |-> "idle"] /\ exp = [p \in Pubs |-> 0] /\ won = {} /\ lost = {} /\ next = 1

FLock == fpc = "idle" /\ lock = 0 /\ lock' = 1 /\ fpc' = "load" /\ UNCHANGED <<word, floaded, pc, exp, won, lost, next>>
FLoad == fpc = "load" /\ floaded' = word.val /\ fpc' = "freeze" /\ UNCHANGED <<word, lock, pc, exp, won, lost, next>>
FFreeze == /\ fpc = "freeze"
           /\ IF How = "store"
              THEN /\ word' = Word(floaded, TRUE) /\ fpc' = "frozen"
                   /\ lost' = (IF word.val # floaded THEN lost \cup {word.val} ELSE lost)
              ELSE /\ UNCHANGED lost
                   /\ IF MayFreeze(word) /\ word.val = floaded THEN word' = Frozen(word) /\ fpc' = "frozen" ELSE UNCHANGED word /\ fpc' = "load"
           /\ UNCHANGED <<lock, floaded, pc, exp, won, next>>
FEnd == /\ fpc = "frozen" /\ fpc' = "unlock"
        /\ \/ word' = GivenUp(word, floaded) /\ UNCHANGED next
           \/ next <= MaxVal /\ word' = Released(word, next) /\ next' = next + 1
        /\ UNCHANGED <<lock, floaded, pc, exp, won, lost>>
FUnlock == fpc = "unlock" /\ lock' = 0 /\ fpc' = "idle" /\ UNCHANGED <<word, floaded, pc, exp, won, lost, next>>

PLoad(p) == /\ pc[p] = "idle" /\ (~word.fz \/ Ignore)
            /\ exp' = [exp EXCEPT ![p] = word.val] /\ pc' = [pc EXCEPT ![p] = "cas"]
            /\ UNCHANGED <<word, lock, fpc, floaded, won, lost, next>>
PCas(p) == /\ pc[p] = "cas" /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ IF next <= MaxVal /\ (MayCas(word, exp[p]) \/ (Ignore /\ word.val = exp[p]))
              THEN /\ won' = (IF word.fz THEN won \cup {next} ELSE won)
                   /\ word' = Published(word, next) /\ next' = next + 1
              ELSE UNCHANGED <<word, won, next>>
           /\ UNCHANGED <<lock, fpc, floaded, exp, lost>>

Next == FLock \/ FLoad \/ FFreeze \/ FEnd \/ FUnlock \/ \E p \in Pubs : PLoad(p) \/ PCas(p)
Spec == Init /\ [][Next]_vars

Blocked == won = {}
Kept == lost = {}
OnlyFrozenByFreezer == (word.fz <=> fpc = "frozen")
SnapshotIsCurrent == fpc = "frozen" => word.val = floaded
\* a value is replaced only by its freezer, or by one who knew it
Monotone == [][word'.val # word.val => word'.val > word.val]_vars
=============================================================================
