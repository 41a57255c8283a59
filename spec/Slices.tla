------------------------------- MODULE Slices -------------------------------
(* A key is a byte string; the tree looks at it one slice of SL bytes at a      *)
(* time, the last slice padded with zeros.                                     *)
EXTENDS Naturals, Integers, Sequences

CONSTANT SL

Min(a, b) == IF a < b THEN a ELSE b
Rest(d, k) == SubSeq(d, k * SL + 1, Len(d))                    \* what is left after k slices
LenAt(d, k) == IF Len(d) > k * SL THEN Len(d) - k * SL ELSE 0
\* SL bytes from offset `at` on, padded with zeros
ReadSlice(d, at) == [i \in 1..SL |-> IF at + i <= Len(d) THEN d[at + i] ELSE 0]
SliceAt(d, k) == ReadSlice(d, k * SL)
MoreAt(d, k) == LenAt(d, k) > SL
SuffixAt(d, k) == Rest(d, k + 1)

\* the length of a slice without the zeros at its end
Significant(s) == LET D == {i \in 1..SL : s[i] # 0} IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : j <= i

\* the order of byte strings; strings of one length ordered like numbers
FirstDiff(a, b) == LET D == {i \in 1..Min(Len(a), Len(b)) : a[i] # b[i]}
                   IN  IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Lex(a, b) == LET i == FirstDiff(a, b) IN IF i = 0 THEN Sign(Len(a) - Len(b)) ELSE Sign(a[i] - b[i])

\* comparing a key with a stored slice and length: beyond a slice all lengths are the same
LenClass(n) == IF n > SL THEN SL + 1 ELSE n
CompareAt(d, k, slice, len) ==
    LET c == Lex(SliceAt(d, k), slice)
    IN  IF c # 0 THEN c ELSE Sign(LenClass(LenAt(d, k)) - LenClass(len))

\* comparing two keys slice by slice
RECURSIVE WalkCompare(_, _, _)
WalkCompare(a, b, k) ==
    LET c == CompareAt(a, k, SliceAt(b, k), LenAt(b, k))
    IN  IF c # 0 \/ ~MoreAt(a, k) \/ ~MoreAt(b, k) THEN c ELSE WalkCompare(a, b, k + 1)
=============================================================================
