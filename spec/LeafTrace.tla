------------------------------- MODULE LeafTrace -------------------------------
(* Recorded operations on one leaf.  Every event ends with, per value made so far, *)
(* how often it is held: once by each slot that has it, otherwise not at all.       *)
EXTENDS Leaf, TLC, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES h, l, L, made
vars == <<h, l, L, made>>
Init == h \in 1..N /\ l = 1 /\ L = Fresh(T[h].root) /\ made = 0

Set(r) == {r[i] : i \in 1..Len(r)}
Seen(obs) == /\ Len(obs) = made'
             /\ \A v \in 1..Len(obs) : obs[v] = B(\E s \in Slots : L'.v[s] = v)
Make(v) == IF v > made /\ v < 100 THEN v ELSE made
Same == UNCHANGED <<L, made>>

Step ==
    /\ l <= Len(T[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == T[h].ev[l]
           op == e[1]
           s == e[2]
       IN CASE op = 1 -> L' = SetKey(L, s, e[3]) /\ UNCHANGED made
            [] op = 2 -> L' = SetClass(L, s, e[3]) /\ UNCHANGED made
            [] op = 3 -> L' = SetValue(L, s, e[3]) /\ made' = Make(e[3])
            \* taken: what was there
            [] op = 4 -> e[3] = L.v[s] /\ L' = SetValue(L, s, 0) /\ UNCHANGED made
            \* claimed: expected, new, success, what was seen
            [] op = 5 -> /\ made' = Make(e[4]) /\ L' = Claim(L, s, e[3], e[4])
                         /\ e[5] = B(L.v[s] = e[3]) /\ (IF e[5] = 0 THEN e[6] = L.v[s] ELSE TRUE)
            [] op = 6 -> L' = SetClass(SetKey(L, s, e[3]), s, e[4]) /\ UNCHANGED made
            [] op = 7 -> L' = [L EXCEPT !.nx = <<s, e[3]>>] /\ UNCHANGED made
            [] op = 8 -> L' = [L EXCEPT !.nx[2] = s] /\ UNCHANGED made
            [] op = 9 -> L' = [L EXCEPT !.pv = s] /\ UNCHANGED made
            [] op = 10 -> L' = [L EXCEPT !.pa = s] /\ UNCHANGED made
            [] op = 11 -> L' = [L EXCEPT !.md = s] /\ UNCHANGED made
            [] op = 12 -> L' = [L EXCEPT !.pm = s] /\ UNCHANGED made
            [] op = 13 -> L' = SetSuffix(L, s, e[3]) /\ UNCHANGED made
            [] op = 14 -> L' = NoSuffix(L, s) /\ UNCHANGED made
            [] op = 15 -> L' = Assign(L, s, e[3], e[4], e[5], e[6]) /\ made' = Make(e[6])
            [] op = 16 -> L' = LayerRoot(L) /\ UNCHANGED made
            \* questions
            [] op = 20 -> e[3] = View(L, s) /\ Same
            [] op = 21 -> s = Whole(L) /\ e[3] = L.pm /\ Same
            [] op = 22 -> e[3] = B(Reuse(L, s)) /\ Same
            [] op = 23 -> e[3] = L.ik /\ (\A i \in 1..Len(e[4]) : Set(e[4][i]) = With(L, s)) /\ Same
            [] op = 24 -> e[3] = ValueOf(L, s) /\ Same
            \* the leaf is dropped; blocks never given back, given back twice, written afterwards
            [] op = 25 -> L' = Fresh(0) /\ UNCHANGED made
            [] op = 26 -> s = <<0, 0, 0>> /\ Same
    /\ LET e == T[h].ev[l] IN Seen(e[Len(e)])
Spec == Init /\ [][Step]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
