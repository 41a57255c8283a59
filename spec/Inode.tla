-------------------------------- MODULE Inode --------------------------------
(* Interior nodes: ascending separators, one child more than separators.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Put(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))     \* p elements before x

\* children are numbered from 0; a slice equal to a separator belongs to its right
Route(keys, ik) == Cardinality({i \in 1..Len(keys) : keys[i] <= ik})
\* where a new separator goes
Place(keys, ik) == Cardinality({i \in 1..Len(keys) : keys[i] < ik})

InsKeys(keys, p, ik) == Put(keys, p, ik)
InsKids(kids, p, c) == Put(kids, p + 1, c)

Mid(W) == (W + 1) \div 2
\* a full node and one separator more: the middle one goes up
SplitLeft(W, keys, kids) == <<SubSeq(keys, 1, Mid(W)), SubSeq(kids, 1, Mid(W) + 1)>>
SplitUp(W, keys) == keys[Mid(W) + 1]
SplitRight(W, keys, kids) == <<SubSeq(keys, Mid(W) + 2, Len(keys)), SubSeq(kids, Mid(W) + 2, Len(kids))>>
=============================================================================
