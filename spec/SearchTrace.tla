------------------------------ MODULE SearchTrace ------------------------------
(* Recorded searches of the code.  A trace has one collection of keys `ks` (by     *)
(* slot), the order `perm` in which the first `n` of them ascend (empty: no         *)
(* order), and searches [what, target, limit, results].  Several implementations    *)
(* of one search give several results, which all have to be right.                  *)
EXTENDS Search, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l
vars == <<h, l>>
Init == h \in 1..N /\ l = 1

K == T[h].ks
P == T[h].perm
\* the keys in the order of the permutation
O == [i \in 1..T[h].n |-> K[P[i] + 1]]

All(rs, v) == \A i \in 1..Len(rs) : rs[i] = v
Set(r) == {r[i] : i \in 1..Len(r)}
Right(e) ==
    LET t == e[2]
        n == e[3]
        rs == e[4]
    IN CASE e[1] = 0 -> All(rs, First(K, n, t))
         [] e[1] = 1 -> All(rs, CountLeq(K, n, t))
         [] e[1] = 2 -> \A i \in 1..Len(rs) : Set(rs[i]) = Where(K, n, t)
         \* [position, slot or -1]
         [] e[1] = 3 -> IF Ascending(O) THEN All(rs, <<Lower(O, t), IF Member(O, t) THEN P[Lower(O, t) + 1] ELSE -1>>) ELSE FALSE
         [] e[1] = 4 -> IF Ascending(O) THEN All(rs, Upper(O, t)) ELSE FALSE

Step == /\ l <= Len(T[h].ev)
        /\ l' = l + 1 /\ UNCHANGED h
        /\ Right(T[h].ev[l])
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
