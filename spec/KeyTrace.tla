------------------------------- MODULE KeyTrace -------------------------------
(* Recorded movements over keys of the code.                                   *)
EXTENDS Slices, FiniteSets, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)

VARIABLES h, l, k
vars == <<h, l, k>>
D == T[h].data
Init == h \in 1..N /\ l = 1 /\ k = 0

Flag(x) == IF x THEN 1 ELSE 0
\* [op, arg, slice, length, has a suffix, suffix, its length, shifts, suffix start, whole length, empty, shifted]
Shows(e, j) ==
    /\ e[3] = SliceAt(D, j)
    /\ e[4] = LenAt(D, j)
    /\ e[5] = Flag(MoreAt(D, j))
    /\ e[6] = SuffixAt(D, j) /\ e[7] = Len(SuffixAt(D, j))
    /\ e[8] = j
    /\ e[9] = Min((j + 1) * SL, Len(D))
    /\ e[10] = Len(D) /\ e[11] = Flag(D = <<>>) /\ e[12] = Flag(j > 0)
    /\ k' = j

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
           op == e[1]
       IN CASE op = 0 -> Shows(e, 0)
            [] op = 1 -> e[2] = 0 /\ Shows(e, k + 1)
            [] op = 2 -> e[2] >= 0 /\ Shows(e, k + e[2] \div SL)
            [] op = 3 -> e[2] = 0 /\ Shows(e, k - 1)
            [] op = 4 -> e[2] = 0 /\ Shows(e, 0)
            [] op = 5 -> e[4] = CompareAt(D, k, e[2], e[3]) /\ e[5] = Lex(SliceAt(D, k), e[2]) /\ UNCHANGED k
            [] op = 6 -> e[3] = ReadSlice(D, e[2]) /\ UNCHANGED k
            [] op = 7 -> e[3] = Lex(D, e[2]) /\ UNCHANGED k
            [] op = 8 -> e[2] = D /\ UNCHANGED k
            [] op = 9 -> e[3] = e[2] /\ e[4] = Significant(e[2]) /\ e[5] = 0 /\ UNCHANGED k
            [] op = 10 -> e[3] = ReadSlice(e[2], 0) /\ UNCHANGED k
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
