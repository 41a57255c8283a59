-------------------------------- MODULE Search --------------------------------
(* What searches over keys mean.  A key is a sequence of digits, most             *)
(* significant first, and keys are ordered as the numbers they write.             *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(a) THEN FALSE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)
Leq(a, b) == ~Less(b, a)

\* positions count from 0; -1: nowhere
Where(ks, n, t) == {i \in 0..(n - 1) : ks[i + 1] = t}
First(ks, n, t) == LET w == Where(ks, n, t) IN IF w = {} THEN -1 ELSE CHOOSE i \in w : \A j \in w : i <= j
CountLeq(ks, n, t) == Cardinality({i \in 0..(n - 1) : Leq(ks[i + 1], t)})

\* ks is in ascending order: how many keys are below t, and at most t
Ascending(ks) == \A i \in 1..(Len(ks) - 1) : Less(ks[i], ks[i + 1])
Lower(ks, t) == Cardinality({i \in 1..Len(ks) : Less(ks[i], t)})
Upper(ks, t) == Cardinality({i \in 1..Len(ks) : Leq(ks[i], t)})
Member(ks, t) == \E i \in 1..Len(ks) : ks[i] = t
=============================================================================
