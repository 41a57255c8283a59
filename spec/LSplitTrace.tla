----------------------------- MODULE LSplitTrace -----------------------------
(* Recorded splits of single leaves of the code.  A leaf: entries, values held, *)
(* slice of the first slot, next, prev, broken, locked, is a leaf.  Leaves: 1    *)
(* the leaf, 2 its new right sibling, 3 and 4 the old neighbours, 0 none.        *)
EXTENDS LSplit, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, s, at, r
vars == <<h, l, s, at, r>>
Init == h \in 1..N /\ l = 1 /\ s = <<>> /\ at = 0 /\ r = <<>>

W == 24
Flag(x) == IF x THEN 1 ELSE 0
Vals(ents) == {Val(e) : e \in Range(ents)}
\* entries without their order inside one slice
Same(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b) /\ \A i \in 1..Len(a) : Slice(a[i]) = Slice(b[i])
\* the leaf holds these entries and no other value
Has(x, ents) == /\ Same(x[1], ents)
                /\ Range(x[2]) = Vals(ents) /\ Len(x[2]) = Len(ents)
                /\ x[6] = 0 /\ x[8] = 1
Links(x, next, prev) == x[4] = next /\ x[5] = prev
Less8(a, b) == \E i \in 1..8 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
TableOK == \A i \in 1..(Len(T[h].slices) - 1) : Less8(T[h].slices[i], T[h].slices[i + 1])

Left(ents) == IF at = -1 THEN <<>> ELSE Lower(ents, at)
Right(ents) == IF at = -1 THEN ents ELSE Upper(ents, at)

Step ==
    /\ l <= Len(T[h].ev)
    /\ l = 1 => Assert(TableOK, "slice table")
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
           op == e[1]
       IN CASE op = 0 -> s' = e[2] /\ UNCHANGED <<at, r>> /\ Sorted(e[2][1]) /\ Has(e[2], e[2][1])
            \* [1, slice of the new key, position, given, at, slice there]
            [] op = 1 -> /\ UNCHANGED <<s, at, r>>
                         /\ LET ents == s[1] IN
                            CASE e[4] = 1 -> MaySplitAt(ents, e[5]) /\ e[6] = Slice(ents[e[5] + 1])
                              [] e[4] = 0 -> Len(ents) < W - 1
                              [] OTHER -> FALSE
            \* the first slot keeps the bound of a leaf that has a left neighbour
            [] op = 2 -> UNCHANGED <<s, at, r>> /\ e[3] = Flag(s[5] = 0 \/ s[3] = e[2])
            [] op = 3 -> LET a == IF e[2] = 1 THEN -1 ELSE e[3]
                             R == IF a = -1 THEN s[1] ELSE Upper(s[1], a)
                             L == IF a = -1 THEN <<>> ELSE Lower(s[1], a)
                         IN  /\ at' = a /\ UNCHANGED s /\ r' = R
                             /\ e[4] = Slice(R[1])
                             /\ Has(e[6], L) /\ Has(e[7], R)
                             /\ e[6][3] = s[3]
                             /\ e[7][3] = Slice(R[1])
                             /\ e[6][7] = 1 /\ e[7][7] = 1 /\ e[8] = 1
                             /\ Links(e[6], s[4], s[5])
            [] op = 4 -> /\ UNCHANGED <<s, at, r>>
                         /\ e[2] = 1
                         /\ Has(e[3], Left(s[1])) /\ Has(e[4], r)
                         /\ Links(e[3], 2, s[5]) /\ Links(e[4], s[4], 1)
                         /\ e[5][4] = (IF s[5] = 0 THEN 0 ELSE 1)
                         /\ e[6][5] = (IF s[4] = 0 THEN 0 ELSE 2)
                         /\ e[3][7] = 1 /\ e[4][7] = 1
            [] op = 5 -> /\ UNCHANGED <<s, at, r>>
                         /\ Has(e[2], Left(s[1])) /\ Has(e[3], r)
                         /\ e[2][7] = 0 /\ e[3][7] = 0
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
