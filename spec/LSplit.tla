-------------------------------- MODULE LSplit --------------------------------
(* Splitting one leaf: where, and what goes where.                              *)
EXTENDS Tree

\* the search for a split point: from the middle, out of a group of one slice;
\* Away says in which direction when the new key's slice is above the group
RECURSIVE Seek(_, _, _, _)
Seek(ents, at, ik, above) ==
    LET n == Len(ents) IN
    IF at = 0 \/ at >= n THEN 0
    ELSE IF Slice(ents[at]) # Slice(ents[at + 1]) THEN at
    ELSE IF ik < Slice(ents[at]) THEN Seek(ents, at - 1, ik, above)
    ELSE IF ik = Slice(ents[at]) \/ above = "right" THEN Seek(ents, at + 1, ik, above)
    ELSE at
SplitPoint(ents, ik, above) == Seek(ents, Len(ents) \div 2, ik, above)

\* the leaf and its new right sibling after a split that keeps `at` entries
SplitLeaf(n, at) == [n EXCEPT !.ents = Lower(@, at)]
NewRight(n, at) == [n EXCEPT !.ents = Upper(n.ents, at), !.bound = Slice(n.ents[at + 1]), !.prev = 1, !.next = n.next]
=============================================================================
