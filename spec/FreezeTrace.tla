----------------------------- MODULE FreezeTrace -----------------------------
(* Recorded runs of threads on one leaf's permutation.  Events in their order:   *)
(*   [0, t, op, a, b]   thread t calls op                                        *)
(*   [1, t, r, x, y]    its call returns                                         *)
(*   [2, t, fz, val]    t's call has just changed the word                       *)
(*   [3, ...]           freezing as a function on words                          *)
(*   [4, fz, val]       the word at the end                                      *)
(* Every call acts at one instant: the change it made, or some state between its *)
(* call and its return.                                                          *)
EXTENDS Freeze, Integers, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, w, snap, holder, pend
vars == <<h, l, w, snap, holder, pend>>
\* pend[t] = <<op, a, b, states seen, changed it>>

Threads == 0..(T[h].nt - 1)
Idle == <<0, 0, 0, {}, FALSE>>
Init == /\ h \in 1..N /\ l = 1 /\ w = Word(T[h].init, FALSE) /\ snap = 0 /\ holder = -1
        /\ pend = [t \in Threads |-> Idle]

Flag(x) == IF x THEN 1 ELSE 0
\* what it looks like from outside: the value under a freeze cannot be seen
Look(x) == IF x.fz THEN <<1, 0>> ELSE <<0, x.val>>

Call(e) == /\ pend[e[2]] = Idle
           /\ pend' = [pend EXCEPT ![e[2]] = <<e[3], e[4], e[5], {w}, FALSE>>]
           /\ UNCHANGED <<w, snap, holder>>

Change(e) ==
    LET t == e[2]
        c == pend[t]
        to(x) == /\ w' = x /\ Look(x) = <<e[3], e[4]>>
                 /\ pend' = [u \in Threads |-> IF pend[u] = Idle THEN Idle
                                               ELSE <<pend[u][1], pend[u][2], pend[u][3], pend[u][4] \cup {x}, pend[u][5] \/ u = t>>]
    IN  /\ ~c[5]
        /\ CASE c[1] = 5 -> MayCas(w, c[2]) /\ to(Published(w, c[3])) /\ UNCHANGED <<snap, holder>>
             [] c[1] = 6 -> MayFreeze(w) /\ to(Frozen(w)) /\ snap' = w.val /\ holder' = t
             [] c[1] = 7 -> holder = t /\ to(Released(w, c[2])) /\ holder' = -1 /\ UNCHANGED snap
             [] c[1] = 8 -> holder = t /\ to(GivenUp(w, snap)) /\ holder' = -1 /\ UNCHANGED snap
             [] c[1] = 9 -> holder = -1 /\ to(Word(c[2], FALSE)) /\ UNCHANGED <<snap, holder>>
             [] OTHER -> FALSE

Ret(e) ==
    LET t == e[2]
        c == pend[t]
        r == e[3]
        saw(P(_)) == \E x \in c[4] : P(x)
    IN  /\ pend' = [pend EXCEPT ![t] = Idle]
        /\ UNCHANGED <<w, snap, holder>>
        /\ CASE c[1] = 1 -> saw(LAMBDA x : IF r = 1 THEN Look(x) = <<0, e[4]>> ELSE x.fz)
             [] c[1] = 2 -> saw(LAMBDA x : Look(x) = <<0, e[4]>>)
             [] c[1] = 3 -> saw(LAMBDA x : r = Flag(x.fz))
             [] c[1] = 4 -> saw(LAMBDA x : Look(x) = <<r, e[4]>>) /\ e[5] = r
             [] c[1] = 5 -> IF r = 1 THEN c[5]
                            ELSE r = 0 /\ ~c[5] /\ saw(LAMBDA x : ~MayCas(x, c[2]) /\ (Look(x) = <<e[4], e[5]>>))
             [] c[1] = 6 -> IF r = 9 THEN ~c[5] /\ saw(LAMBDA x : x.fz)
                            ELSE r = 1 /\ c[5] /\ e[4] = snap /\ e[5] = snap
             [] c[1] \in {7, 8} -> r = 1 /\ c[5]
             [] c[1] = 9 -> r = 1 /\ (c[5] \/ saw(LAMBDA x : x = Word(c[2], FALSE)))

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
       IN CASE e[1] = 0 -> Call(e)
            [] e[1] = 1 -> Ret(e)
            [] e[1] = 2 -> Change(e)
            [] e[1] = 3 -> /\ e[2] = e[3] /\ <<e[4], e[5], e[6], e[7], e[8], e[9]>> = <<0, 1, 1, 1, 0, 1>>
                           /\ UNCHANGED <<w, snap, holder, pend>>
            [] e[1] = 4 -> /\ \A t \in Threads : pend[t] = Idle
                           /\ holder = -1 /\ Look(w) = <<e[2], e[3]>> /\ ~w.fz
                           /\ UNCHANGED <<w, snap, holder, pend>>
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
