------------------------------ MODULE ChainTrace ------------------------------
(* Recorded runs of threads that link leaves and look at the chain.  Events:     *)
(*   [0, t, op, a, b]        thread t calls op                                   *)
(*   [1, t, r, x, y]         its call returns                                    *)
(*   [2, t, n, f, m, k]      t has just changed a pointer of leaf n: f = 0 next, *)
(*                           to m, marked k; f = 1 prev, to m                    *)
(*   [3, rows]               next, marked and prev of every leaf at the end      *)
EXTENDS Chain, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, nxt, prv, pend, done
vars == <<h, l, nxt, prv, pend, done>>
\* pend[t] = <<op, a, b, looks of a's pointers since the call, stage>>; done: linked leaves
\* stage of a link: 0 called, 1 has marked, 2 has published

Threads == 0..(T[h].nt - 1)
Idle == <<0, 0, 0, {}, 0>>
Init == /\ h \in 1..N /\ l = 1
        /\ LET f == T[h].first
           IN /\ nxt = [n \in 1..T[h].total |-> IF n < f THEN <<n + 1, 0>> ELSE <<0, 0>>]
              /\ prv = [n \in 1..T[h].total |-> IF n <= f THEN n - 1 ELSE 0]
              /\ done = 1..f
        /\ pend = [t \in Threads |-> Idle]

Look(n, ne, pr) == <<ne[n][1], ne[n][2], pr[n]>>
Call(e) == /\ pend[e[2]] = Idle
           /\ IF e[3] = 1 THEN e[4] \in done /\ e[5] \notin done ELSE TRUE
           /\ pend' = [pend EXCEPT ![e[2]] = <<e[3], e[4], e[5], {Look(e[4], nxt, prv)}, 0>>]
           /\ UNCHANGED <<nxt, prv, done>>

\* everybody who watches the leaf sees the change
Seen(ne, pr, t, stage) ==
    [u \in Threads |-> IF pend[u] = Idle THEN Idle
                       ELSE <<pend[u][1], pend[u][2], pend[u][3],
                              pend[u][4] \cup {Look(pend[u][2], ne, pr)},
                              IF u = t THEN stage ELSE pend[u][5]>>]
Change(e) ==
    LET t == e[2]
        n == e[3]
        c == pend[t]
        a == c[2]
        x == c[3]
        to(ne, pr, st) == /\ nxt' = ne /\ prv' = pr /\ pend' = Seen(ne, pr, t, st)
                          /\ TRUE = Whole(ne, pr)
    IN  /\ c[1] = 1
        /\ CASE e[4] = 0 /\ n = a /\ c[5] = 0 ->
                    /\ MayMark(nxt, a) /\ e[5] = Old(nxt, a) /\ e[6] = 1
                    /\ to(Mark(nxt, a), prv, 1) /\ UNCHANGED done
             [] e[4] = 0 /\ n = a /\ c[5] = 1 ->
                    /\ MayPublish(nxt, prv, a, x) /\ e[5] = x /\ e[6] = 0
                    /\ to(Publish(nxt, a, x), prv, 2) /\ done' = done \cup {x}
             \* before it is published the new leaf is its linker's
             [] e[4] = 0 /\ n = x /\ c[5] < 2 -> to([nxt EXCEPT ![x] = <<e[5], e[6]>>], prv, c[5]) /\ UNCHANGED done
             [] e[4] = 1 /\ n = x /\ c[5] < 2 -> to(nxt, [prv EXCEPT ![x] = e[5]], c[5]) /\ UNCHANGED done
             \* the old neighbour is turned around under the mark
             [] e[4] = 1 /\ n = Old(nxt, a) /\ c[5] = 1 -> e[5] = x /\ to(nxt, [prv EXCEPT ![n] = x], 1) /\ UNCHANGED done
             [] OTHER -> FALSE

Ret(e) ==
    LET t == e[2]
        c == pend[t]
        r == e[3]
        saw(P(_)) == \E x \in c[4] : P(x)
    IN  /\ pend' = [pend EXCEPT ![t] = Idle]
        /\ UNCHANGED <<nxt, prv, done>>
        /\ TRUE = (CASE c[1] = 1 -> c[5] = 2
             [] c[1] = 2 -> saw(LAMBDA x : x[1] = r)
             [] c[1] = 3 -> saw(LAMBDA x : x[2] = r)
             [] c[1] = 4 -> saw(LAMBDA x : <<x[1], x[2]>> = <<r, e[4]>>) /\ e[5] = 0
             [] c[1] = 5 -> saw(LAMBDA x : x[3] = r)
             \* nobody stops waiting while the mark is there
             [] c[1] = 6 -> r = 1 => saw(LAMBDA x : x[2] = 0))

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
       IN CASE e[1] = 0 -> Call(e)
            [] e[1] = 1 -> Ret(e)
            [] e[1] = 2 -> Change(e)
            [] e[1] = 3 -> /\ \A t \in Threads : pend[t] = Idle
                           /\ \A n \in DOMAIN nxt : /\ e[2][n] = Look(n, nxt, prv) /\ ~Marked(nxt, n)
                           /\ {Row(nxt)[i] : i \in DOMAIN Row(nxt)} = done
                           /\ UNCHANGED <<nxt, prv, pend, done>>
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
