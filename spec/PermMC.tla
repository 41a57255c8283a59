------------------------------- MODULE PermMC -------------------------------
(* A node of W slots used through its permutation: every live slot holds an     *)
(* item, and the live part read in order is the list the operations mean.       *)
EXTENDS Perm, TLC

CONSTANTS W, Items, Mistake     \* Mistake: a wrong contract, to see it refuted
VARIABLES p, size, slot, list
vars == <<p, size, slot, list>>

Init == p = Empty(W) /\ size = 0 /\ slot = [s \in 0..(W - 1) |-> 0] /\ list = <<>>

Used == {list[i] : i \in 1..Len(list)}
DoInsert(i, x) ==
    /\ size < W /\ i \in 0..size /\ x \notin Used
    /\ p' = Insert(p, i) /\ size' = size + 1
    /\ slot' = [slot EXCEPT ![Back(p)] = x]
    /\ list' = SubSeq(list, 1, i) \o <<x>> \o SubSeq(list, i + 1, Len(list))
Out(i) == SubSeq(list, 1, i) \o SubSeq(list, i + 2, Len(list))
DoRemove(i) == i \in 0..(size - 1) /\ p' = (IF Mistake = "remove" THEN RemoveToBack(p, i + 1) ELSE Remove(p, size, i)) /\ size' = size - 1 /\ list' = Out(i) /\ UNCHANGED slot
DoRemoveToBack(i) == i \in 0..(size - 1) /\ p' = RemoveToBack(p, i) /\ size' = size - 1 /\ list' = Out(i) /\ UNCHANGED slot
\* free slots may be exchanged at will
DoSwapFree(i, j) == {i, j} \subseteq (IF Mistake = "swap" THEN 0..(W - 1) ELSE size..(W - 1)) /\ i # j /\ p' = Exchange(p, i, j) /\ UNCHANGED <<size, slot, list>>
\* cutting off the upper part
DoTruncate(n) == n \in 0..(size - 1) /\ size' = n /\ list' = SubSeq(list, 1, n) /\ UNCHANGED <<p, slot>>
\* turning the live part
DoRotate(i, j) == size = W /\ i <= j /\ j <= W /\ p' = Rotate(p, i, j)
                  /\ list' = SubSeq(list, 1, i) \o SubSeq(list, j + 1, W) \o SubSeq(list, i + 1, j) /\ UNCHANGED <<size, slot>>
DoExchange(i, j) == {i, j} \subseteq 0..(size - 1) /\ p' = Exchange(p, i, j) /\ list' = Exchange(list, i, j) /\ UNCHANGED <<size, slot>>

Next == \/ \E i \in 0..(W - 1), x \in Items : DoInsert(i, x)
        \/ \E i \in 0..(W - 1) : DoRemove(i) \/ DoRemoveToBack(i) \/ DoTruncate(i)
        \/ \E i \in 0..W, j \in 0..W : DoSwapFree(i, j) \/ DoRotate(i, j) \/ DoExchange(i, j)
Spec == Init /\ [][Next]_vars

IsPermutation == IsPerm(p, W) /\ size \in 0..W
Content == [i \in 1..size |-> slot[p[i]]] = list
=============================================================================
