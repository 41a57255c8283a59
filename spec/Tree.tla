-------------------------------- MODULE Tree --------------------------------
(* The shape of a masstree: a trie of B+trees.  Pure definitions, shared by    *)
(* the protocol model (MTree), the trace specification of recorded critical    *)
(* sections (MTreeTrace) and the judgement of snapshots (Snapshot).            *)
(*                                                                            *)
(* A node is a record.  Leaf: [t |-> "L", par, prev, next, bound, ents, ...].   *)
(* Interior node: [t |-> "I", par, h, keys, kids, ...].  Node 0 is "none".      *)
(* An entry is <<slice, kind, suffix, val>>: kind 0..8 is the length of a key   *)
(* that ends in this slice, Suf a key that goes on with the suffix, Lay a link  *)
(* to the layer that holds all keys going on after this slice.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Suf == 64
Lay == 128

IsLeaf(n) == n.t = "L"

Slice(e) == e[1]
Kind(e) == e[2]
Sfx(e) == e[3]
Val(e) == e[4]

\* Entries are ordered by slice.  Entries of one slice are different keys: they differ in
\* length, where at most one goes on beyond the slice.  Their order is free.
KindRank(k) == IF k >= Suf THEN 9 ELSE k
SameKey(a, b) == Slice(a) = Slice(b) /\ KindRank(Kind(a)) = KindRank(Kind(b))

Sorted(ents) == /\ \A i \in 1..(Len(ents) - 1) : Slice(ents[i]) <= Slice(ents[i + 1])
                /\ \A i \in 1..Len(ents) : \A j \in (i + 1)..Len(ents) :
                      Slice(ents[j]) = Slice(ents[i]) => ~SameKey(ents[i], ents[j])
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

Range(s) == {s[i] : i \in DOMAIN s}
InsertAtPos(s, p, x) == SubSeq(s, 1, p - 1) \o <<x>> \o SubSeq(s, p, Len(s))

-----------------------------------------------------------------------------
(* Searching.                                                                 *)

\* the child whose range holds the slice; a slice equal to a separator is to its right
ChildPos(n, ik) == 1 + Cardinality({i \in 1..Len(n.keys) : n.keys[i] <= ik})
ChildFor(n, ik) == n.kids[ChildPos(n, ik)]

\* the entry of a leaf a search for (slice, kind, suffix) runs into, 0 if none
HitPos(n, ik, kind) ==
    LET P == {i \in 1..Len(n.ents) : Slice(n.ents[i]) = ik /\ KindRank(Kind(n.ents[i])) = KindRank(kind)}
    IN  IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE

-----------------------------------------------------------------------------
(* The legal changes of a node.                                               *)

\* where a new entry may go: anywhere next to its slice
EntPositions(ents, e) == {p \in 1..(Len(ents) + 1) :
    (p > 1 => Slice(ents[p - 1]) <= Slice(e)) /\ (p <= Len(ents) => Slice(e) <= Slice(ents[p]))}
CanAdd(ents, e) == \A i \in 1..Len(ents) : ~SameKey(ents[i], e)

Replace(ents, i, v) == [ents EXCEPT ![i] = <<@[1], @[2], @[3], v>>]
ToLayer(ents, i, top) == [ents EXCEPT ![i] = <<@[1], Lay, 0, top>>]

\* a split keeps the first p entries and moves the rest; a slice stays together
Lower(ents, p) == SubSeq(ents, 1, p)
Upper(ents, p) == SubSeq(ents, p + 1, Len(ents))
MaySplitAt(ents, p) == p \in 1..(Len(ents) - 1) /\ Slice(ents[p]) # Slice(ents[p + 1])

\* a separator and the child to its right go in next to the child that was split
PosOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
AddChild(n, left, sep, right) ==
    LET p == PosOf(n.kids, left)
    IN  [n EXCEPT !.keys = InsertAtPos(@, p, sep), !.kids = InsertAtPos(@, p + 1, right)]
\* splitting an interior node passes one separator up
InLower(n, m) == [n EXCEPT !.keys = SubSeq(@, 1, m - 1), !.kids = SubSeq(@, 1, m)]
InUpper(n, m) == [n EXCEPT !.keys = SubSeq(@, m + 1, Len(@)), !.kids = SubSeq(@, m + 1, Len(@))]

-----------------------------------------------------------------------------
(* Walking.  ns is a function from ids to nodes.                              *)

\* fuel makes every walk end, also on a corrupt structure
MaxDepth == 40

RECURSIVE TopFrom(_, _, _)
TopFrom(ns, a, fuel) == IF ns[a].par = 0 \/ fuel = 0 THEN a ELSE TopFrom(ns, ns[a].par, fuel - 1)
TopOf(ns, a) == TopFrom(ns, a, MaxDepth)

RECURSIVE LeftFrom(_, _, _)
LeftFrom(ns, a, fuel) == IF IsLeaf(ns[a]) \/ fuel = 0 THEN a ELSE LeftFrom(ns, ns[a].kids[1], fuel - 1)
Leftmost(ns, a) == LeftFrom(ns, a, MaxDepth)

\* the leaves of a layer along the sibling links
RECURSIVE ChainFrom(_, _, _)
ChainFrom(ns, a, fuel) ==
    IF a = 0 \/ fuel = 0 \/ ~IsLeaf(ns[a]) THEN <<>> ELSE <<a>> \o ChainFrom(ns, ns[a].next, fuel - 1)
Chain(ns, top) == ChainFrom(ns, Leftmost(ns, top), Cardinality(DOMAIN ns) + 1)

\* the leaves of a layer in the order of the tree
RECURSIVE LeavesFrom(_, _, _)
LeavesFrom(ns, a, fuel) ==
    IF fuel = 0 THEN <<>>
    ELSE IF IsLeaf(ns[a]) THEN <<a>>
    ELSE LET k == ns[a].kids
             F[i \in 0..Len(k)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o LeavesFrom(ns, k[i], fuel - 1)
         IN  F[Len(k)]
LeavesUnder(ns, a) == LeavesFrom(ns, a, MaxDepth)

\* all nodes of a layer
RECURSIVE NodesFrom(_, _, _, _)
NodesFrom(ns, todo, seen, fuel) ==
    IF todo = {} \/ fuel = 0 THEN seen
    ELSE LET new == UNION {Range(ns[a].kids) : a \in {x \in todo : ~IsLeaf(ns[x])}} \ seen
         IN  NodesFrom(ns, new, seen \cup new, fuel - 1)
NodesUnder(ns, a) == NodesFrom(ns, {a}, {a}, MaxDepth)

-----------------------------------------------------------------------------
(* Well-formedness of one layer, of which `top` is the root.  W and IW are the *)
(* capacities.  lo is inclusive, hi exclusive; hi = 0 stands for no bound.      *)

RECURSIVE InRange(_, _, _, _)
InRange(ns, a, lo, hi) ==
    LET n == ns[a]
        ok(ik) == ik >= lo /\ (hi = 0 \/ ik < hi)
    IN  IF IsLeaf(n) THEN \A i \in 1..Len(n.ents) : ok(Slice(n.ents[i]))
        ELSE /\ \A i \in 1..Len(n.keys) : ok(n.keys[i])
             /\ \A i \in 1..Len(n.kids) :
                    InRange(ns, n.kids[i], IF i = 1 THEN lo ELSE n.keys[i - 1],
                                           IF i = Len(n.kids) THEN hi ELSE n.keys[i])

ShapeOK(ns, a, W, IW) ==
    LET n == ns[a] IN
    IF IsLeaf(n) THEN Len(n.ents) <= W /\ Sorted(n.ents)
    ELSE /\ Len(n.keys) \in 1..IW
         /\ Len(n.kids) = Len(n.keys) + 1
         /\ Increasing(n.keys)
         /\ Cardinality(Range(n.kids)) = Len(n.kids)
         /\ \A i \in 1..Len(n.kids) : n.kids[i] \in DOMAIN ns

ParentsOK(ns, a) ==
    IsLeaf(ns[a]) \/ \A c \in Range(ns[a].kids) : ns[c].par = a

DepthOK(ns, a) ==
    IsLeaf(ns[a]) \/ \A c \in Range(ns[a].kids) :
        IF ns[a].h = 0 THEN IsLeaf(ns[c]) ELSE ~IsLeaf(ns[c]) /\ ns[c].h = ns[a].h - 1

\* sibling links in both directions say what the tree says
LinksOK(ns, top) ==
    LET L == LeavesUnder(ns, top)
    IN  \A i \in 1..Len(L) :
            /\ ns[L[i]].next = (IF i = Len(L) THEN 0 ELSE L[i + 1])
            /\ ns[L[i]].prev = (IF i = 1 THEN 0 ELSE L[i - 1])

\* the bound of a leaf separates it from its left neighbour
BoundsOK(ns, top) ==
    LET L == LeavesUnder(ns, top)
    IN  \A i \in 2..Len(L) :
            /\ \A e \in Range(ns[L[i]].ents) : Slice(e) >= ns[L[i]].bound
            /\ \A e \in Range(ns[L[i - 1]].ents) : Slice(e) < ns[L[i]].bound

\* no slice is in two leaves
SlicesTogether(ns, top) ==
    LET L == LeavesUnder(ns, top)
        S(i) == {Slice(e) : e \in Range(ns[L[i]].ents)}
    IN  \A i \in 1..(Len(L) - 1) : S(i) \cap S(i + 1) = {}

\* the rest of the definitions assumes that the levels of a layer are levels
LayerFaults(ns, top, W, IW) ==
    LET N == NodesUnder(ns, top)
        first == {f \in {"shape", "parents", "depth"} :
                    ~ CASE f = "shape" -> \A a \in N : ShapeOK(ns, a, W, IW)
                        [] f = "parents" -> \A a \in N : ParentsOK(ns, a)
                        [] f = "depth" -> \A a \in N : DepthOK(ns, a)}
    IN  IF first # {} THEN first
        ELSE {f \in {"range", "links", "bounds", "slices"} :
                ~ CASE f = "range" -> InRange(ns, top, 0, 0)
                    [] f = "links" -> LinksOK(ns, top)
                    [] f = "bounds" -> BoundsOK(ns, top)
                    [] f = "slices" -> SlicesTogether(ns, top)}
=============================================================================
