------------------------------ MODULE OrderTrace ------------------------------
(* Recorded runs in which loads returned older values.  Events:                  *)
(*  [0, t] an operation begins        [1, t, l, acq, i] a load gets message i     *)
(*  [2, t, l, acq, rel] a store       [3, t, l, acq, rel] a read-modify-write     *)
(*  [4, t, acq, rel, sc] a fence      [5, t, b] a block is made                   *)
(*  [6, t, b] what is in a block is used                                          *)
(*  [7, l, b, t] a location comes up, in block b or (0) none, or was overwritten  *)
(* Every load must be one the orderings allow, and nothing may be used that is    *)
(* not known to be made.                                                          *)
EXTENDS Order, TLC, TLCExt, Json, IOUtils

TR == ndJsonDeserialize(IOEnv.TRACE)
N == Len(TR)
VARIABLES h, l, s
vars == <<h, l, s>>
T == 0..(TR[h].nt - 1)
Init == h \in 1..N /\ l = 1 /\ s = Start(T, [x \in 1..TR[h].locs |-> 0])

B(x) == x = 1
Step ==
    /\ l <= Len(TR[h].ev)
    /\ l' = l + 1 /\ UNCHANGED h
    /\ LET e == TR[h].ev[l]
           op == e[1]
           t == e[2]
       IN CASE op = 0 -> s' = Call(s, t)
            [] op = 1 -> MayRead(Tick(s, t), t, e[3], e[5] + 1) /\ s' = Load(s, t, e[3], e[5] + 1, B(e[4]))
            [] op = 2 -> s' = Store(s, t, e[3], 0, B(e[5]))
            [] op = 3 -> s' = Rmw(s, t, e[3], 0, B(e[4]), B(e[5]))
            [] op = 4 -> s' = Fence(s, t, B(e[3]), B(e[4]), B(e[5]))
            [] op = 5 -> s' = [Make(s, t) EXCEPT !.made = [b \in 1..Top(Len(s.made), e[3]) |->
                                  IF b = e[3] THEN Make(s, t).made[Len(s.made) + 1]
                                  ELSE IF b <= Len(s.made) THEN s.made[b] ELSE [by |-> -1, ep |-> 0]]]
            [] op = 6 -> Made(s, t, e[3]) /\ UNCHANGED s
            [] op = 7 -> s' = [s EXCEPT !.msg[t] =
                                  <<IF e[3] = 0 THEN First(T, 0)
                                    ELSE [First(T, 0) EXCEPT !.by = s.made[e[3]].by, !.ep = s.made[e[3]].ep]>>]
Spec == Init /\ [][Step]_vars

View == <<h, l>>
Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(TR[i].ev) + 1
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
