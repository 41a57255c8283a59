------------------------------ MODULE PermTrace ------------------------------
(* Recorded operations on the permutations of the code.  Events:               *)
(* [op, a, b, result, size, slots, back, forms agree, ...]; codes 20..23 are    *)
(* operations on the atomic cell, whose values are compared as words.           *)
EXTENDS Perm, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)

VARIABLES h, l, p, size, cell
vars == <<h, l, p, size, cell>>

W == T[h].w
Init == h \in 1..N /\ l = 1 /\ p = <<>> /\ size = -1 /\ cell = ""

\* what the code shows is the permutation q with n live slots
Shows(e, q, n) ==
    /\ e[5] = n /\ e[6] = q /\ e[8] = 1
    /\ IsPerm(q, W)
    \* the back, twice, and from there downward
    /\ Len(e[7]) = 2 + W - n
    /\ e[7][1] = Back(q) /\ e[7][2] = Back(q)
    /\ \A o \in 0..(W - n - 1) : e[7][o + 3] = q[W - o]
    /\ p' = q /\ size' = n

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
           op == e[1]
           a == e[2]
           b == e[3]
       IN IF op >= 20
          THEN /\ UNCHANGED <<p, size>>
               /\ CASE op = 20 -> cell' = a
                    [] op = 21 -> a = cell /\ UNCHANGED cell
                    \* [22, expected, new, succeeded, word found]; 23 may fail for no reason
                    [] OTHER -> /\ e[5] = cell
                                /\ IF e[4] = 1 THEN a = cell /\ cell' = b
                                   ELSE (op = 23 \/ a # cell) /\ UNCHANGED cell
          ELSE /\ UNCHANGED cell
               /\ e[4] >= 0
               /\ CASE op = 0 -> Shows(e, Empty(W), 0)
                    [] op = 1 -> Shows(e, MakeSorted(W, a), a)
                    [] op = 2 -> /\ e[4] = Back(p) /\ e[9] = Back(p)
                                 /\ Shows(e, Insert(p, a), size + 1)
                                 /\ e[10] = size + 1 /\ e[11] = Insert(p, a)
                    [] op = 4 -> Shows(e, RemoveToBack(p, a), size - 1)
                    [] op = 5 -> Shows(e, Remove(p, size, a), size - 1)
                    [] op \in {6, 7} -> Shows(e, Exchange(p, a, b), size)
                    [] op = 8 -> Shows(e, Rotate(p, a, b), size)
                    [] op = 9 -> Shows(e, p, a)
                    [] op = 11 -> Shows(e, e[9], a)
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
