------------------------------- MODULE SfxTrace -------------------------------
(* Recorded operations on the suffix storage of the code, alone (codes below    *)
(* 10) and in a leaf.  What is stored is a function from slots to numbers of    *)
(* strings in the table of the record, 0 for nothing.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, m, ik, kx, live
vars == <<h, l, m, ik, kx, live>>

W == T[h].w
Init == h \in 1..N /\ l = 1 /\ m = <<>> /\ ik = <<>> /\ kx = <<>> /\ live = {}

Str(i) == T[h].t[i]
Size(i) == IF i = 0 THEN 0 ELSE Len(Str(i))
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE Size(f[n]) + Sum(f, n - 1)
Flag(x) == IF x THEN 1 ELSE 0

\* byte strings in lexicographic order: -1, 0, 1
Cmp(a, b) ==
    LET k == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..k : a[i] # b[i]}
    IN  IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0)
        ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y IN IF a[i] < b[i] THEN -1 ELSE 1

Set(f, s, x) == [f EXCEPT ![s + 1] = x]
Keep(f, S) == [i \in 1..Len(f) |-> IF i - 1 \in S THEN f[i] ELSE 0]
Nothing(n) == [i \in 1..n |-> 0]

Probe(stored, q, eq, cmp) ==
    /\ eq = Flag(stored # 0 /\ stored = q)
    /\ cmp = (IF stored = 0 THEN 2 ELSE Cmp(Str(stored), Str(q)))

-----------------------------------------------------------------------------
BagShows(e, n) ==
    /\ e[5] = n /\ e[6] = 1
    /\ e[7] = Cardinality({i \in 1..W : n[i] # 0})
    /\ e[9] <= e[10]
    \* everything stored has room of its own
    /\ Sum(n, W) <= e[9]
    /\ Probe(n[e[2] + 1], e[11], e[12], e[13])
    /\ m' = n

Bag(e) ==
    LET op == e[1]
        s == e[2]
    IN  /\ UNCHANGED <<ik, kx, live>>
        /\ e[4] >= 0
        /\ CASE op = 0 -> BagShows(e, Nothing(W)) /\ e[9] = 0
             [] op = 1 -> BagShows(e, Set(m, s, e[3]))
             \* in place or not at all; at hand is what the old string took
             [] op = 2 -> IF e[4] = 1 THEN BagShows(e, Set(m, s, e[3])) ELSE BagShows(e, m) /\ e[9] = e[8]
             [] op = 3 -> BagShows(e, Set(m, s, 0))
             \* only the slots named stay, and nothing else takes room
             [] op = 4 -> LET n == Keep(m, Range(e[3]))
                          IN  BagShows(e, n) /\ (Cardinality(Range(e[3])) = Len(e[3]) => e[9] = Sum(n, W) /\ e[4] = e[8] - e[9])
             [] op = 5 -> BagShows(e, m)

-----------------------------------------------------------------------------
Shown(n, k) == [i \in 1..W |-> IF k[i] = 64 THEN n[i] ELSE 0]
LeafShows(e, n, i, k, v) ==
    LET see == Shown(n, k)
        p == e[8] + 1
        q == e[9]
        st == see[p]
    IN  /\ e[5] = see /\ e[6] = 1 /\ e[7] = k
        /\ Probe(st, q, e[10], e[11])
        \* does the slot hold this key: slice, then suffix
        /\ e[13] = Flag(i[p] = e[12] /\ (IF Str(q) = <<>> THEN k[p] # 64 ELSE st # 0 /\ st = q))
        \* -8: look in the layer below; 1: this key; 0: another
        /\ e[15] = (IF k[p] >= 128 THEN -8
                    ELSE IF k[p] # 64 THEN Flag(k[p] = e[14] /\ Str(q) = <<>>)
                    ELSE Flag(Str(q) # <<>> /\ st = q))
        /\ Range(e[16]) = {x \in 0..(W - 1) : i[x + 1] = e[12]}
        /\ m' = n /\ ik' = i /\ kx' = k /\ live' = v
Leaf(e) ==
    LET op == e[1]
        s == e[2]
        a == e[3]
    IN  /\ e[4] >= 0
        /\ CASE op = 10 -> LeafShows(e, Nothing(W), Nothing(W), Nothing(W), {})
             [] op = 11 -> LeafShows(e, Set(m, s, a), ik, Set(kx, s, 64), live)
             [] op = 12 -> LeafShows(e, Set(m, s, 0), ik, Set(kx, s, 0), live)
             [] op = 13 -> LeafShows(e, m, ik, Set(kx, s, a), live)
             [] op = 14 -> LeafShows(e, m, ik, kx, Range(a))
             [] op = 15 -> LeafShows(e, Keep(m, live \ {a}), ik, kx, live)
             [] op = 16 -> LeafShows(e, m, Set(ik, s, a), kx, live)

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l] IN IF e[1] < 10 THEN Bag(e) ELSE Leaf(e)
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
