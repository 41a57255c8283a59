------------------------------- MODULE OrderMC --------------------------------
(* What the tree relies on, under release/acquire orderings: a node that writers   *)
(* lock by a compare-and-swap that also marks it, change with relaxed stores, and   *)
(* release by a store to the version; readers that read version, data, version;    *)
(* and a pointer to a fresh block, published among the data.  Writers also count   *)
(* on what they read under the lock.  Faults: "nofence" no release fence after     *)
(* the mark, "unlock" relaxed release, "lock" relaxed compare-and-swap, "data"     *)
(* relaxed loads of the data, "publish" relaxed publication, "follow" relaxed load *)
(* of the pointer.                                                                 *)
EXTENDS Order, TLC
CONSTANTS Writers, Readers, Fault
T == Writers \cup Readers
V == 1
A == 2
B == 3
P == 4

VARIABLES s, pc, got, done
vars == <<s, pc, got, done>>
None == [v |-> -1, a |-> -1, b |-> -1]
Init == /\ s = Start(T, <<0, 0, 0, 0>>) /\ pc = [t \in T |-> IF t \in Writers THEN "peek" ELSE "first"]
        /\ got = [t \in T |-> None] /\ done = 0
Val(l, i) == s.msg[l][i].val
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Reads(t, l, acq, F(_), ok(_), next(_)) ==
    \E i \in 1..Latest(s, l) :
        /\ MayRead(Tick(s, t), t, l, i) /\ ok(Val(l, i))
        /\ s' = Load(s, t, l, i, acq) /\ got' = [got EXCEPT ![t] = F(Val(l, i))] /\ Go(t, next(Val(l, i)))

\* writers: versions are even when free
Even(v) == v % 2 = 0
AllV(v) == TRUE
Peek(t) == /\ pc[t] = "peek" /\ UNCHANGED done
           /\ Reads(t, V, FALSE, LAMBDA v : [None EXCEPT !.v = v], Even, LAMBDA v : "cas")
Cas(t) == /\ pc[t] = "cas" /\ UNCHANGED <<got, done>>
          \* (a failed attempt tries again, as if it had looked later)
          /\ Val(V, Latest(s, V)) = got[t].v
          /\ s' = Rmw(s, t, V, got[t].v + 1, Fault # "lock", FALSE) /\ Go(t, "mark")
Mark(t) == /\ pc[t] = "mark" /\ UNCHANGED <<got, done>> /\ Go(t, "readA")
           /\ s' = IF Fault = "nofence" THEN s ELSE Fence(s, t, FALSE, TRUE, FALSE)
ReadA(t) == pc[t] = "readA" /\ UNCHANGED done /\ Reads(t, A, FALSE, LAMBDA v : [got[t] EXCEPT !.a = v], AllV, LAMBDA v : "writeA")
WriteA(t) == pc[t] = "writeA" /\ s' = Store(s, t, A, got[t].a + 1, FALSE) /\ Go(t, "writeB") /\ UNCHANGED <<got, done>>
WriteB(t) == pc[t] = "writeB" /\ s' = Store(s, t, B, got[t].a + 1, FALSE) /\ Go(t, "make") /\ UNCHANGED <<got, done>>
MakeP(t) == pc[t] = "make" /\ s' = Make(s, t) /\ Go(t, "publish") /\ UNCHANGED <<got, done>>
Publish(t) == /\ pc[t] = "publish" /\ UNCHANGED <<got, done>> /\ Go(t, "unlock")
              /\ s' = Store(s, t, P, CHOOSE b \in DOMAIN s.made : /\ s.made[b].by = t
                                        /\ \A c \in DOMAIN s.made : s.made[c].by = t => c <= b,
                            Fault # "publish")
Unlock(t) == /\ pc[t] = "unlock" /\ s' = Store(s, t, V, got[t].v + 2, Fault # "unlock")
             /\ Go(t, "end") /\ done' = done + 1 /\ UNCHANGED got

\* readers
First_(t) == /\ pc[t] = "first" /\ UNCHANGED done
             /\ Reads(t, V, TRUE, LAMBDA v : [None EXCEPT !.v = v], AllV, LAMBDA v : IF Even(v) THEN "a" ELSE "end")
SeeA(t) == /\ pc[t] = "a" /\ UNCHANGED done
           /\ Reads(t, A, Fault # "data", LAMBDA v : [got[t] EXCEPT !.a = v], AllV, LAMBDA v : "b")
SeeB(t) == /\ pc[t] = "b" /\ UNCHANGED done
           /\ Reads(t, B, Fault # "data", LAMBDA v : [got[t] EXCEPT !.b = v], AllV, LAMBDA v : "again")
Again(t) == /\ pc[t] = "again" /\ UNCHANGED done
            /\ Reads(t, V, TRUE, LAMBDA v : got[t], AllV, LAMBDA v : IF v = got[t].v THEN "sure" ELSE "unsure")
\* the pointer is followed whatever the version says
Follow(t) == /\ pc[t] \in {"sure", "unsure"} /\ UNCHANGED done
             /\ Reads(t, P, Fault # "follow", LAMBDA v : [None EXCEPT !.b = v], AllV, LAMBDA v : "use")
Next == \E t \in T : \/ Peek(t) \/ Cas(t) \/ Mark(t) \/ ReadA(t) \/ WriteA(t) \/ WriteB(t) \/ MakeP(t) \/ Publish(t) \/ Unlock(t)
                     \/ First_(t) \/ SeeA(t) \/ SeeB(t) \/ Again(t) \/ Follow(t)
Spec == Init /\ [][Next]_vars

\* what a reader is sure of was all there at one time: the time of its version
Whole == \A t \in Readers : pc[t] = "sure" => 2 * got[t].a = got[t].v /\ 2 * got[t].b = got[t].v
\* writers miss nothing of each other
NoneLost == \A t \in Writers : pc[t] = "writeB" => 2 * got[t].a = got[t].v
\* what a reader uses is known to be made
Known == \A t \in Readers : pc[t] = "use" => got[t].b = 0 \/ Made(s, t, got[t].b)
=============================================================================
