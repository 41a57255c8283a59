-------------------------------- MODULE Perm --------------------------------
(* Slot permutations: a list of all slots of a node, of which the first `size`  *)
(* are live, in key order; the rest is free, the next one to be used last.      *)
(* Positions count from 0, as in the code; p[i + 1] is the slot at position i.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

IsPerm(p, w) == Len(p) = w /\ {p[i] : i \in 1..Len(p)} = 0..(w - 1)

Empty(w) == [i \in 1..w |-> w - i]
\* the first n slots in order, the others such that slot n is used next
MakeSorted(w, n) == [i \in 1..w |-> IF i <= n THEN i - 1 ELSE w - 1 - (i - 1 - n)]

Back(p) == p[Len(p)]
Live(p, size) == SubSeq(p, 1, size)
Free(p, size) == SubSeq(p, size + 1, Len(p))

\* the next free slot becomes the live slot at position i
Insert(p, i) == SubSeq(p, 1, i) \o <<Back(p)>> \o SubSeq(p, i + 1, Len(p) - 1)
\* the slot at position i becomes the next free one / the first free one
RemoveToBack(p, i) == SubSeq(p, 1, i) \o SubSeq(p, i + 2, Len(p)) \o <<p[i + 1]>>
Remove(p, size, i) == SubSeq(p, 1, i) \o SubSeq(p, i + 2, size) \o <<p[i + 1]>> \o SubSeq(p, size + 1, Len(p))
Exchange(p, i, j) == [p EXCEPT ![i + 1] = p[j + 1], ![j + 1] = p[i + 1]]
\* positions from i on turn left until position j has come to i
Rotate(p, i, j) == IF i = Len(p) THEN p ELSE SubSeq(p, 1, i) \o SubSeq(p, j + 1, Len(p)) \o SubSeq(p, i + 1, j)
=============================================================================
