-------------------------------- MODULE Order ---------------------------------
(* Memory under release/acquire orderings, by vector clocks: what a load may      *)
(* return, and which steps are known to have happened before.  The writes of a    *)
(* location have one order, that of the interleaving; loads may lag behind it.    *)
(* Accesses that are not of a modelled kind (locks of the platform) only add to   *)
(* what is known, so leaving them out is checked to be harmless elsewhere.        *)
EXTENDS Integers, Sequences

Top(a, b) == IF a > b THEN a ELSE b
Join(c, d) == [u \in DOMAIN c |-> Top(c[u], d[u])]

\* s.clk[t]: what t knows of everybody; s.pend[t]: what it will know after an acquire
\* fence; s.fen[t]: what it knew at its last release fence; s.all: of the SeqCst fences;
\* s.msg[l]: the writes of location l; s.made[b]: who made block b, and when
Zero(T) == [u \in T |-> 0]
First(T, v) == [by |-> -1, ep |-> 0, rel |-> Zero(T), read |-> Zero(T), val |-> v]
Start(T, vals) == [clk |-> [t \in T |-> [u \in T |-> 1]], pend |-> [t \in T |-> Zero(T)], fen |-> [t \in T |-> Zero(T)],
                   all |-> Zero(T), msg |-> [l \in DOMAIN vals |-> <<First(T, vals[l])>>], made |-> <<>>]

Tick(s, t) == [s EXCEPT !.clk[t][t] = @ + 1]
Before(c, by, ep) == by = -1 \/ ep <= c[by]
\* a reader with clock c knows of a write it, or somebody it knows of, has read or made
Aware(c, m) == IF Before(c, m.by, m.ep) THEN TRUE ELSE \E u \in DOMAIN c : m.read[u] # 0 /\ m.read[u] <= c[u]
MayRead(s, t, l, i) == /\ i \in 1..Len(s.msg[l])
                       /\ \A j \in (i + 1)..Len(s.msg[l]) : ~Aware(s.clk[t], s.msg[l][j])
Latest(s, l) == Len(s.msg[l])

\* t, which has ticked, reads message i of l
Take(s, t, l, i, acq) ==
    LET m == s.msg[l][i]
        r == [s EXCEPT !.msg[l][i].read[t] = IF @ = 0 THEN s.clk[t][t] ELSE @]
    IN  IF acq THEN [r EXCEPT !.clk[t] = Join(@, m.rel)] ELSE [r EXCEPT !.pend[t] = Join(@, m.rel)]
Give(s, t, l, v, rel, old) ==
    LET c == Join(IF rel THEN s.clk[t] ELSE s.fen[t], old)
    IN  [s EXCEPT !.msg[l] = Append(@, [by |-> t, ep |-> s.clk[t][t], rel |-> c, read |-> Zero(DOMAIN s.clk), val |-> v])]

Load(s, t, l, i, acq) == Take(Tick(s, t), t, l, i, acq)
Store(s, t, l, v, rel) == Give(Tick(s, t), t, l, v, rel, Zero(DOMAIN s.clk))
\* reads the latest write, and its own continues the release sequence
Rmw(s, t, l, v, acq, rel) ==
    LET k == Latest(s, l)
    IN  Give(Take(Tick(s, t), t, l, k, acq), t, l, v, rel, s.msg[l][k].rel)
Fence(s, t, acq, rel, sc) ==
    LET r == Tick(s, t)
        c == IF acq \/ sc THEN Join(r.clk[t], r.pend[t]) ELSE r.clk[t]
        d == IF sc THEN Join(c, r.all) ELSE c
    IN  [r EXCEPT !.clk[t] = d, !.fen[t] = IF rel \/ sc THEN d ELSE @, !.all = IF sc THEN d ELSE @]
Make(s, t) == LET r == Tick(s, t) IN [r EXCEPT !.made = Append(@, [by |-> t, ep |-> r.clk[t][t]])]
\* the making of b happened before what t does now
Made(s, t, b) == s.made[b].by = t \/ Before(s.clk[t], s.made[b].by, s.made[b].ep)
\* an operation begins when others are as far as they are, which is known to it
Call(s, t) == LET T == DOMAIN s.clk
                  c == [u \in T |-> CHOOSE n \in {s.clk[w][u] : w \in T} : \A w \in T : s.clk[w][u] <= n]
              IN  Tick([s EXCEPT !.clk[t] = c], t)
=============================================================================
