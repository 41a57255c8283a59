------------------------------ MODULE Snapshot ------------------------------
(* Judges snapshots of quiescent trees recorded from the code.  Slices are     *)
(* ranks into the table of the slices that occur, in numeric order; the bytes  *)
(* of slices and suffixes are in tables, so full keys can be rebuilt.          *)
EXTENDS Tree, TLC, TLCExt, Json, IOUtils

Snaps == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Snaps)
W == 24
IW == 15

NodeFun(s) == [i \in {s.nodes[j].id : j \in 1..Len(s.nodes)} |->
                   s.nodes[CHOOSE j \in 1..Len(s.nodes) : s.nodes[j].id = i]]
\* ids are handed out in the order of the list
DirectFun(s) == IF \A j \in 1..Len(s.nodes) : s.nodes[j].id = j THEN [j \in 1..Len(s.nodes) |-> s.nodes[j]] ELSE NodeFun(s)

\* everything reachable from a layer root along the sibling links: <<key, value>>
RECURSIVE Walk(_, _, _, _)
Walk(s, ns, top, prefix) ==
    IF Len(prefix) > 300 THEN << <<prefix, -1>> >> ELSE
    LET L == Chain(ns, top)
        One(e) == IF Kind(e) = Lay
                  THEN Walk(s, ns, TopOf(ns, Val(e)), prefix \o s.slices[Slice(e)])
                  ELSE IF Kind(e) = Suf
                  THEN << <<prefix \o s.slices[Slice(e)] \o s.sufs[Sfx(e)], Val(e)>> >>
                  ELSE << <<prefix \o SubSeq(s.slices[Slice(e)], 1, Kind(e)), Val(e)>> >>
        LeafW(a) == LET es == ns[a].ents
                        F[i \in 0..Len(es)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o One(es[i])
                    IN  F[Len(es)]
        G[i \in 0..Len(L)] == IF i = 0 THEN <<>> ELSE G[i - 1] \o LeafW(L[i])
    IN  G[Len(L)]

\* the bytes of a key beyond its length are zero
Padded(s, ns) == \A a \in DOMAIN ns : IsLeaf(ns[a]) =>
    \A e \in Range(ns[a].ents) : Kind(e) <= 8 => \A i \in (Kind(e) + 1)..8 : s.slices[Slice(e)][i] = 0

Idle(n) == n.lk = 0 /\ n.dirty = 0 /\ n.del = 0 /\ (IsLeaf(n) => n.mark = 0 /\ n.frz = 0)

Tops(s, ns) == {s.layers[i].root : i \in 1..Len(s.layers)}

Faults(s) ==
    LET ns == DirectFun(s)
        refsOK == \A a \in DOMAIN ns : IF IsLeaf(ns[a])
                     THEN ns[a].next \in DOMAIN ns \cup {0} /\ ns[a].prev \in DOMAIN ns \cup {0} /\ ns[a].par \in DOMAIN ns \cup {0}
                          /\ \A e \in Range(ns[a].ents) : Val(e) # -1 /\ (Kind(e) = Lay => Val(e) \in DOMAIN ns) /\ Kind(e) \in 0..8 \cup {Suf, Lay}
                     ELSE ns[a].par \in DOMAIN ns \cup {0} /\ Range(ns[a].kids) \subseteq DOMAIN ns
    IN  IF s.broken = 1 THEN {"endless"}
        ELSE IF ~refsOK THEN {"references"}
        ELSE LET local == UNION {LayerFaults(ns, t, W, IW) : t \in Tops(s, ns)}
                 idle == IF \A a \in DOMAIN ns : Idle(ns[a]) THEN {} ELSE {"busy"}
                 top == IF \A t \in Tops(s, ns) : ns[t].par = 0 THEN {} ELSE {"layer root"}
                 root == IF ns[s.root].par = 0 THEN {} ELSE {"root"}
                 pad == IF Padded(s, ns) THEN {} ELSE {"padding"}
                 \* nothing reachable by sibling links only
                 all == IF UNION {NodesUnder(ns, t) : t \in Tops(s, ns)} = DOMAIN ns THEN {} ELSE {"stray"}
             IN  local \cup idle \cup top \cup root \cup pad \cup all \cup
                 (IF local # {} THEN {}
                  ELSE LET w == Walk(s, ns, s.root, <<>>)
                       IN  (IF Len(w) = Len(s.expect) /\ Range(w) = Range(s.expect) THEN {} ELSE {"contents"})
                           \cup (IF s.len = Len(s.expect) THEN {} ELSE {"length"}))

VARIABLES i, bad
Init == i = 1 /\ bad = {}
Next == i <= N /\ i' = i + 1 /\ bad' = Faults(Snaps[i])
Spec == Init /\ [][Next]_<<i, bad>>

Track == bad # {} => PrintT(<<"REJECTED", i - 1, 0, bad>>)
Accepted == TLCGet("stats").diameter >= 0 /\ PrintT(<<"CHECKED", N>>)
=============================================================================
