------------------------------ MODULE InodeTrace ------------------------------
(* Recorded operations on interior nodes of the code.  Separators are ranks in  *)
(* the table of slices, children are numbers; 900 is the node, 901 its right    *)
(* sibling.  A node: [keys, kids, parents of kids, height, sizes, full, empty]. *)
EXTENDS Inode, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, keys, kids, rkeys, rkids, ht
vars == <<h, l, keys, kids, rkeys, rkids, ht>>
W == T[h].w
Init == h \in 1..N /\ l = 1 /\ keys = <<>> /\ kids = <<>> /\ rkeys = <<>> /\ rkids = <<>> /\ ht = 0

Flag(x) == IF x THEN 1 ELSE 0
\* the table of slices ascends as byte strings
Less8(a, b) == \E i \in 1..8 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
TableOK == \A i \in 1..(Len(T[h].slices) - 1) : Less8(T[h].slices[i], T[h].slices[i + 1])

Shows(s, k, c, hh, me) ==
    /\ s[1] = k /\ s[2] = c /\ s[4] = hh
    /\ \A i \in 1..Len(s[5]) : s[5][i] = Len(k)
    /\ s[6] = Flag(Len(k) >= W) /\ s[7] = Flag(k = <<>>)
    \* children that are leaves get their links from the caller
    /\ hh > 0 => \A i \in 1..Len(s[3]) : s[3][i] = me
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Probe(e, k) == /\ \A i \in 1..3 : e[3][i] = Route(k, e[2])
               /\ e[4] = Place(k, e[2]) /\ e[5] = Place(k, e[2])
               /\ Len(e[6]) = Len(k) /\ \A i \in 1..Len(k) : e[6][i] = Sign(e[2] - k[i])
Pos(k, x) == CHOOSE i \in 1..Len(k) : k[i] = x
Find(k, slots, x) == IF x \in {k[i] : i \in 1..Len(k)} THEN <<Pos(k, x) - 1, slots[Pos(k, x)]>> ELSE <<Place(k, x), -1>>

Step ==
    /\ l <= Len(T[h].ev)
    /\ l = 1 => Assert(TableOK, "slice table")
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
           op == e[1]
       IN CASE op = 0 -> /\ keys' = <<>> /\ kids' = <<e[2]>> /\ ht' = e[3] /\ UNCHANGED <<rkeys, rkids>>
                         /\ Shows(e[4], <<>>, <<e[2]>>, e[3], 900)
            [] op = 2 -> LET p == Place(keys, e[2])
                             k == InsKeys(keys, p, e[2])
                             c == InsKids(kids, p, e[3])
                         IN  /\ e[4] = p /\ keys' = k /\ kids' = c /\ UNCHANGED <<rkeys, rkids, ht>>
                             /\ Shows(e[5], k, c, ht, 900)
            [] op = 3 -> Probe(e, keys) /\ UNCHANGED <<keys, kids, rkeys, rkids, ht>>
            [] op = 5 -> Probe(e, rkeys) /\ UNCHANGED <<keys, kids, rkeys, rkids, ht>>
            [] op = 4 -> LET p == Place(keys, e[2])
                             k == InsKeys(keys, p, e[2])
                             c == InsKids(kids, p, e[3])
                             L == SplitLeft(W, k, c)
                             R == SplitRight(W, k, c)
                         IN  /\ Len(keys) = W /\ e[4] = p
                             /\ e[5] = SplitUp(W, k)
                             /\ e[6] = Flag(p < Mid(W))
                             /\ keys' = L[1] /\ kids' = L[2] /\ rkeys' = R[1] /\ rkids' = R[2] /\ UNCHANGED ht
                             /\ Shows(e[8], R[1], R[2], ht, 901)
                             \* the new child hangs below the node it was put into by the caller
                             /\ Shows(e[7], L[1], L[2], ht, 900)
            [] op = 6 -> /\ e[5][1] = Find(e[3], e[4], e[2]) /\ e[5][2] = Find(e[3], e[4], e[2])
                         /\ e[6][1] = Route(e[3], e[2]) /\ e[6][2] = Route(e[3], e[2])
                         /\ UNCHANGED <<keys, kids, rkeys, rkids, ht>>
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
