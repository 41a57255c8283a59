-------------------------------- MODULE KeyMC --------------------------------
(* A cursor over a key, moving down and up; and, for all pairs of short keys,   *)
(* the order seen slice by slice is the order of the byte strings.              *)
EXTENDS Slices, FiniteSets, TLC

CONSTANTS Bytes, MaxLen, UseLen     \* UseLen = FALSE: slices alone, to see it refuted
Keys == UNION {[1..n -> Bytes] : n \in 0..MaxLen}

VARIABLES a, b, k
vars == <<a, b, k>>
Init == a \in Keys /\ b \in Keys /\ k = 0
Down == MoreAt(a, k) /\ k' = k + 1 /\ UNCHANGED <<a, b>>
Up == k > 0 /\ k' = k - 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Down \/ Up]_vars

RECURSIVE Glue(_, _)
Glue(d, i) == SubSeq(SliceAt(d, i), 1, Min(SL, LenAt(d, i))) \o (IF MoreAt(d, i) THEN Glue(d, i + 1) ELSE <<>>)
RECURSIVE SliceOrder(_, _, _)
SliceOrder(x, y, i) == LET c == Lex(SliceAt(x, i), SliceAt(y, i))
                       IN  IF c # 0 \/ ~MoreAt(x, i) \/ ~MoreAt(y, i) THEN c ELSE SliceOrder(x, y, i + 1)

OrderPreserved == (IF UseLen THEN WalkCompare(a, b, 0) ELSE SliceOrder(a, b, 0)) = Lex(a, b)
Faithful == Glue(a, 0) = a
\* what is seen depends on the depth only
Recovers == SubSeq(a, 1, k * SL) \o Rest(a, k) = a /\ Len(SuffixAt(a, k)) = (IF MoreAt(a, k) THEN LenAt(a, k) - SL ELSE 0)
=============================================================================
