------------------------------- MODULE KVSeq -------------------------------
(* One caller at a time: the tree is a map from byte strings to values.  Each  *)
(* line of TRACE is one sequence of operations on one set of trees (shared      *)
(* pointer, inline value, index wrapper), with the bytes of every key used and  *)
(* the result of every call.  Operation codes:                                 *)
(*  0 get, 1 insert, 2 len and is_empty, 3 any call with an over-long key,      *)
(*  4 get through every variant and tree, 5 insert into every tree,             *)
(*  6 len and is_empty of every tree.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
MaxKey == 256

VARIABLES h, l, m, n
vars == <<h, l, m, n>>

Op == T[h].ops[l]
Flag(b) == IF b THEN 1 ELSE 0

\* the keys of the table are different byte strings of legal length
KeysOK(i) == LET ks == T[i].keys IN
    /\ Cardinality({ks[j] : j \in 1..Len(ks)}) = Len(ks)
    /\ \A j \in 1..Len(ks) : Len(ks[j]) <= MaxKey

Init == /\ h \in 1..N
        /\ l = 1
        /\ m = [k \in 1..Len(T[h].keys) |-> 0]
        /\ n = 0

Put(k, v) == m' = [m EXCEPT ![k] = v] /\ n' = n + Flag(m[k] = 0)
Keep == UNCHANGED <<m, n>>

Step ==
    /\ l <= Len(T[h].ops)
    /\ l = 1 => Assert(KeysOK(h), "key table")
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET o == Op IN
       CASE o[1] = 0 -> o[4] = m[o[2]] /\ Keep
         [] o[1] = 1 -> o[4] = m[o[2]] /\ Put(o[2], o[3])
         [] o[1] = 2 -> o[4] = n /\ o[5] = Flag(n = 0) /\ Keep
         \* refused, and the observable structure is what it was
         [] o[1] = 3 -> o[2] > MaxKey /\ o[4] = -1 /\ o[5] = o[7] /\ o[6] = o[8] /\ Keep
         [] o[1] = 4 -> (\A i \in 4..Len(o) : o[i] = m[o[2]]) /\ Keep
         [] o[1] = 5 -> (\A i \in 4..Len(o) : o[i] = m[o[2]]) /\ Put(o[2], o[3])
         [] o[1] = 6 -> (\A i \in 2..(Len(o) \div 2) : o[2 * i] = n /\ (2 * i + 1 <= Len(o) => o[2 * i + 1] = Flag(n = 0))) /\ Keep
Spec == Init /\ [][Step]_vars

Counted == n = Cardinality({k \in DOMAIN m : m[k] # 0})

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ops) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
