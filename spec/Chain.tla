-------------------------------- MODULE Chain --------------------------------
(* The chain of leaves.  nxt[n] = <<m, marked>>, prv[n] = m; 0 for none.         *)
(* Linking x behind a: mark a's pointer, prepare x, turn the old neighbour       *)
(* around, publish.  Each is a change that may happen only at its time.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Marked(nxt, a) == nxt[a][2] = 1
Old(nxt, a) == nxt[a][1]
MayMark(nxt, a) == nxt[a][2] = 0
Mark(nxt, a) == [nxt EXCEPT ![a] = <<nxt[a][1], 1>>]
Ready(nxt, prv, a, x) ==
    /\ nxt[x] = <<Old(nxt, a), 0>>
    /\ prv[x] = a
    /\ IF Old(nxt, a) = 0 THEN TRUE ELSE prv[Old(nxt, a)] = x
MayPublish(nxt, prv, a, x) == Marked(nxt, a) /\ Ready(nxt, prv, a, x)
Publish(nxt, a, x) == [nxt EXCEPT ![a] = <<x, 0>>]

\* the leaves from the first one on
RECURSIVE From(_, _, _)
From(nxt, n, seen) == IF n = 0 \/ n \in seen THEN <<>>
                      ELSE <<n>> \o From(nxt, nxt[n][1], seen \cup {n})
Row(nxt) == From(nxt, 1, {})
\* a pointer that is not marked leads to a leaf that leads back
Whole(nxt, prv) ==
    LET r == Row(nxt)
    IN  /\ \A i \in 1..Len(r) - 1 : Marked(nxt, r[i]) \/ prv[r[i + 1]] = r[i]
        /\ nxt[r[Len(r)]][1] = 0
        /\ prv[1] = 0
=============================================================================
