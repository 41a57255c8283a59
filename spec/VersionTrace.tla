----------------------------- MODULE VersionTrace -----------------------------
(* Recorded runs of threads on one or two version words.  Events in their order: *)
(*   [0, t, op, o, a]    thread t calls op on word o                             *)
(*   [1, t, r, ...]      its call returns                                        *)
(*   [2, t, o, fl, raw, hc]  t's call has just changed word o; hc is what holders *)
(*                       of each version read so far would be told now           *)
(*   [3, t, o, ...]      a sibling born locked, released                         *)
(*   [4, fls]            the words at the end                                    *)
(*   [5, ...], [6]       the word of a single thread                             *)
(* Every call acts at one instant: the change it made, or some state between its *)
(* call and its return.                                                          *)
EXTENDS Version, FiniteSets, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, w, raw, known, pend
vars == <<h, l, w, raw, known, pend>>
\* raw[o]: the number of word o's present bits; known[o]: versions readers took
\* pend[t] = <<op, word, a, <<state, raw>>s seen, changed it>>

Threads == 0..(T[h].nt - 1)
Words == 1..Len(T[h].init)
Idle == <<0, 0, 0, {}, FALSE>>
Bit(x) == x = 1
FirstWord(i, o) ==
    LET f == T[i].init[o][1]
    IN  Word(IF Bit(f[1]) THEN 0 ELSE Nobody, Bit(f[3]), Bit(f[5]), Bit(f[6]), IF o = 1 THEN T[i].vi ELSE 0)
Init == /\ h \in 1..N /\ l = 1
        /\ w = [o \in Words |-> FirstWord(h, o)]
        /\ raw = [o \in Words |-> T[h].init[o][2]]
        /\ known = [o \in Words |-> <<>>]
        /\ pend = [t \in Threads |-> Idle]

Flag(x) == IF x THEN 1 ELSE 0
Flags(x) == <<Flag(x.own # Nobody), Flag(x.ins), Flag(x.spl), Flag(x.del), Flag(x.root), Flag(x.leaf)>>

Call(e) == /\ pend[e[2]] = Idle
           /\ pend' = [pend EXCEPT ![e[2]] = <<e[3], e[4], e[5], {<<w[e[4]], raw[e[4]]>>}, FALSE>>]
           /\ UNCHANGED <<w, raw, known>>

\* what t's call op may do to the word x
Effect(op, x, t) == CASE op \in 1..4 -> Acquired(x, t)
                      [] op = 5 -> MarkInsert(x)
                      [] op = 6 -> MarkSplit(x)
                      [] op = 7 -> MarkDeleted(x)
                      [] op \in {8, 9} -> MarkNonroot(x)
                      [] op \in {11, 17} -> Released(x)
                      [] OTHER -> x
Enabled(op, x, t) == CASE op \in 1..4 -> MayAcquire(x)
                       [] op \in (5..9) \cup {11} -> x.own = t
                       [] op = 17 -> x.own = t /\ x.spl
                       [] OTHER -> FALSE

\* the answers a holder of k must get, as a number
AskOk(r, x, k) == /\ (r % 2 = 1) = Changed(x, k)
                  /\ SplitOk((r \div 2) % 2 = 1, x, k)
                  /\ (r \div 4 = 1) = ChangedOrLocked(x, k)

Change(e) ==
    LET t == e[2]
        o == e[3]
        c == pend[t]
    IN  /\ ~c[5] /\ c[2] = o
        /\ Enabled(c[1], w[o], t)
        /\ \E x \in {Effect(c[1], w[o], t)} :
           /\ x # w[o] /\ Flags(x) = e[4]
           /\ w' = [w EXCEPT ![o] = x] /\ raw' = [raw EXCEPT ![o] = e[5]]
           \* a released word differs from all a reader may hold
           /\ Len(e[6]) = Len(known[o])
           /\ TRUE = \A i \in 1..Len(known[o]) : AskOk(e[6][i], x, known[o][i])
           /\ pend' = [u \in Threads |-> IF pend[u][2] # o \/ pend[u] = Idle THEN pend[u]
                                         ELSE [pend[u] EXCEPT ![4] = @ \cup {<<x, e[5]>>}, ![5] = @ \/ u = t]]
        /\ UNCHANGED known

Query(a, x) == CASE a = 0 -> x.own # Nobody
                 [] a = 1 -> x.ins
                 [] a = 2 -> x.spl
                 [] a = 3 -> x.del
                 [] a = 4 -> x.root
                 [] a = 5 -> x.leaf
                 [] a = 6 -> x.ins \/ x.spl
                 [] a = 7 -> x.own # Nobody /\ x.spl

Ret(e) ==
    LET t == e[2]
        c == pend[t]
        o == c[2]
        r == e[3]
        saw(P(_)) == TRUE = \E x \in c[4] : P(x[1])
        old == known[o][c[3]]
    IN  /\ c # Idle
        /\ pend' = [pend EXCEPT ![t] = Idle]
        /\ UNCHANGED <<w, raw>>
        /\ IF c[1] = 12
           THEN \E x \in c[4] : /\ Clean(x[1]) /\ x[2] = r /\ e[5] = Flags(x[1])
                                /\ e[4] = Len(known[o]) + 1
                                /\ known' = [known EXCEPT ![o] = Append(@, x[1])]
           ELSE UNCHANGED known
        /\ CASE c[1] \in {1, 2} -> r = 1 /\ c[5]
             [] c[1] \in {3, 4} -> IF r = 1 THEN c[5]
                                   ELSE r = 0 /\ ~c[5] /\ (saw(Busy) \/ Cardinality(c[4]) > 1)
             [] c[1] \in 5..9 -> r = 1 /\ (c[5] \/ (w[o].own = t /\ Effect(c[1], w[o], t) = w[o]))
             [] c[1] = 10 -> r = 0 /\ ~c[5]
             [] c[1] \in {11, 17} -> r = 1 /\ c[5]
             [] c[1] = 12 -> ~c[5]
             [] c[1] = 13 -> saw(LAMBDA x : r = Flag(Changed(x, old)))
             [] c[1] = 14 -> saw(LAMBDA x : SplitOk(r = 1, x, old))
             [] c[1] = 15 -> saw(LAMBDA x : r = Flag(ChangedOrLocked(x, old)))
             [] c[1] = 16 -> saw(LAMBDA x : r = Flag(Query(c[3], x)))

\* a sibling: locked at birth, splitting, of the same kind; then free, seen as split
Born(e) == LET s == Sibling(w[e[3]], e[2])
           IN  /\ w[e[3]].own = e[2]
               /\ e[4] = [Flags(s) EXCEPT ![1] = 1] /\ e[5] = 1
               /\ TRUE = AskOk(e[6], Released(s), s)
               /\ e[7] = 0 /\ e[8] = Flags(Released(s))
               /\ UNCHANGED <<w, raw, known, pend>>

\* one thread alone
Section(x, s, d, nr) ==
    LET a == Acquired(x, 0)
        b == IF s = 1 THEN MarkSplit(a) ELSE a
        c == IF d = 1 THEN MarkDeleted(b) ELSE b
    IN  CHOOSE y \in {Released(z) : z \in {IF nr = 1 THEN MarkNonroot(c) ELSE c}} : TRUE
Single(e) ==
    \E x \in {CASE e[2] = 0 -> Section(w[1], e[3], e[4], e[5])
               [] e[2] = 1 -> MarkRoot(w[1])
               [] e[2] = 2 -> MarkNonroot(w[1])
               [] OTHER -> w[1]} :
        /\ Flags(x) = e[6]
        /\ Len(e[7]) = Len(known[1])
        /\ TRUE = \A i \in 1..Len(known[1]) : /\ (e[7][i] % 2 = 1) = Changed(x, known[1][i])
                                              /\ SplitOk(e[7][i] \div 2 = 1, x, known[1][i])
        /\ w' = [w EXCEPT ![1] = x]
        /\ UNCHANGED <<raw, known, pend>>

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
       IN CASE e[1] = 0 -> Call(e)
            [] e[1] = 1 -> Ret(e)
            [] e[1] = 2 -> Change(e)
            [] e[1] = 3 -> Born(e)
            [] e[1] = 4 -> /\ \A t \in Threads : pend[t] = Idle
                           /\ \A o \in Words : ~Busy(w[o]) /\ e[2][o] = Flags(w[o])
                           /\ UNCHANGED <<w, raw, known, pend>>
            [] e[1] = 5 -> Single(e)
            [] e[1] = 6 -> known' = [known EXCEPT ![1] = Append(@, w[1])] /\ UNCHANGED <<w, raw, pend>>
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
