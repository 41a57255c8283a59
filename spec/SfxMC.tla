-------------------------------- MODULE SfxMC --------------------------------
(* Suffix storage as the code keeps it: one buffer of bytes and, per slot, the  *)
(* place and length of its suffix.  Whatever is assigned, overwritten in place, *)
(* cleared or compacted, what the slots hold is the plain function that the     *)
(* assignments describe (which is what SfxTrace compares the code with).        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Slots, Bytes, MaxLen, Cap, Slack

Strings == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
None == <<0>>
NoMeta == [off |-> 0, len |-> 0, has |-> FALSE]

VARIABLES buf, meta, map
vars == <<buf, meta, map>>

Init == buf = <<>> /\ meta = [s \in Slots |-> NoMeta] /\ map = [s \in Slots |-> None]

At(b, m) == SubSeq(b, m.off + 1, m.off + m.len)
Put(b, off, x) == [i \in 1..(IF Len(b) < off + Len(x) THEN off + Len(x) ELSE Len(b)) |->
                      IF i > off /\ i <= off + Len(x) THEN x[i - off] ELSE b[i]]

\* write over the old suffix if the new one is not longer
Reuse(s, x) ==
    /\ meta[s].has /\ Len(x) <= meta[s].len + Slack
    /\ buf' = Put(buf, meta[s].off, x)
    /\ meta' = [meta EXCEPT ![s].len = Len(x)]
    /\ map' = [map EXCEPT ![s] = x]
Append_(s, x) ==
    /\ Len(buf) + Len(x) <= Cap
    /\ buf' = buf \o x
    /\ meta' = [meta EXCEPT ![s] = [off |-> Len(buf), len |-> Len(x), has |-> TRUE]]
    /\ map' = [map EXCEPT ![s] = x]
Clear(s) == /\ UNCHANGED buf /\ meta' = [meta EXCEPT ![s] = NoMeta] /\ map' = [map EXCEPT ![s] = None]
\* in any order of the slots kept
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : f[i] = f[j] => i = j}
Compact(S) ==
    LET keep == {s \in S : meta[s].has}
    IN  \E f \in Perms(keep) :
        LET B[i \in 0..Cardinality(keep)] == IF i = 0 THEN <<>> ELSE B[i - 1] \o At(buf, meta[f[i]])
            pos(s) == CHOOSE i \in 1..Cardinality(keep) : f[i] = s
        IN  /\ buf' = B[Cardinality(keep)]
            /\ meta' = [s \in Slots |-> IF s \in keep THEN [off |-> Len(B[pos(s) - 1]), len |-> meta[s].len, has |-> TRUE] ELSE NoMeta]
            /\ map' = [s \in Slots |-> IF s \in S THEN map[s] ELSE None]

Next == \/ \E s \in Slots : Clear(s) \/ \E x \in Strings : Reuse(s, x) \/ Append_(s, x)
        \/ \E S \in SUBSET Slots : Compact(S)
Spec == Init /\ [][Next]_vars

Holds == \A s \in Slots : IF meta[s].has THEN At(buf, meta[s]) = map[s] ELSE map[s] = None
Within == \A s \in Slots : meta[s].has => meta[s].off + meta[s].len <= Len(buf)
Apart == \A s, t \in Slots : s # t /\ meta[s].has /\ meta[t].has =>
            meta[s].off + meta[s].len <= meta[t].off \/ meta[t].off + meta[t].len <= meta[s].off \/ meta[s].len = 0 \/ meta[t].len = 0
=============================================================================
