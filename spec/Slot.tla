--------------------------------- MODULE Slot ---------------------------------
(* Who holds a value: slots, outputs handed out, and raw pointers.               *)
(* A slot: <<0, 0>> empty, <<1, v>> a value, <<2, p>> a layer.                   *)
(* outs[v]: outputs of v handed out.  raws: from the raw pointers that exist to  *)
(* the values behind them.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

Empty == <<0, 0>>
Holds(v) == <<1, v>>
Layer(p) == <<2, p>>
ValueIn(c) == IF c[1] = 1 THEN c[2] ELSE 0
LayerIn(c) == IF c[1] = 2 THEN c[2] ELSE 0
Add(outs, v, n) == IF v = 0 THEN outs ELSE [outs EXCEPT ![v] = @ + n]
Raws(raws, v) == Cardinality({r \in DOMAIN raws : raws[r] = v})
\* how many hold v
Holders(slots, outs, raws, v) ==
    Cardinality({i \in DOMAIN slots : slots[i] = Holds(v)}) + outs[v] + Raws(raws, v)
Without(raws, r) == [x \in DOMAIN raws \ {r} |-> raws[x]]
With(raws, r, v) == [x \in DOMAIN raws \cup {r} |-> IF x = r THEN v ELSE raws[x]]
=============================================================================
