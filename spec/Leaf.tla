--------------------------------- MODULE Leaf ----------------------------------
(* A leaf as a record of independent fields.  Slots are numbered from 1; a value *)
(* is 0 (none), a number below 100 (a value) or above (a layer); a suffix is its  *)
(* number or -1; `nx` is the next leaf and its mark; `pm` lists the live slots.   *)
EXTENDS Integers, Sequences, FiniteSets

Width == 24
Slots == 1..Width
Fresh(root) ==
    [ik |-> [s \in Slots |-> 0], kx |-> [s \in Slots |-> 0], v |-> [s \in Slots |-> 0],
     sf |-> [s \in Slots |-> -1], nx |-> <<0, 0>>, pv |-> 0, pa |-> 0, md |-> 0,
     pm |-> <<>>, rt |-> root]

IsLayer(x) == x >= 128
HasSuffix(x) == x = 64
\* the suffix a slot shows
Shown(L, s) == IF HasSuffix(L.kx[s]) THEN L.sf[s] ELSE -1
\* the value that may be cloned out of a slot
ValueOf(L, s) == IF IsLayer(L.kx[s]) THEN 0 ELSE L.v[s]
B(x) == IF x THEN 1 ELSE 0
View(L, s) == <<L.ik[s], L.kx[s], L.v[s], B(IsLayer(L.kx[s])), B(HasSuffix(L.kx[s])), B(L.v[s] = 0), Shown(L, s)>>
Whole(L) == <<L.ik[1], L.nx[1], L.nx[2], L.pv, L.pa, L.md, L.rt, Len(L.pm), B(Len(L.pm) = 0), B(Len(L.pm) = Width),
              IF L.pm = <<>> THEN -1 ELSE L.kx[L.pm[1]]>>
Reuse(L, k) == L.pv = 0 \/ L.ik[1] = k
With(L, k) == {s \in Slots : L.ik[s] = k}

\* what each operation does
SetKey(L, s, k) == [L EXCEPT !.ik[s] = k]
SetClass(L, s, x) == [L EXCEPT !.kx[s] = x]
SetValue(L, s, v) == [L EXCEPT !.v[s] = v]
Claim(L, s, old, v) == IF L.v[s] = old THEN SetValue(L, s, v) ELSE L
SetSuffix(L, s, f) == [L EXCEPT !.sf[s] = f, !.kx[s] = 64]
NoSuffix(L, s) == [L EXCEPT !.sf[s] = -1, !.kx[s] = 0]
\* a key with its value: what is left of the key after eight bytes is a suffix
Assign(L, s, k, x, f, v) ==
    LET M == SetValue(SetKey(L, s, k), s, v)
    IN IF f >= 0 THEN SetSuffix(M, s, f) ELSE SetClass(M, s, x)
LayerRoot(L) == [L EXCEPT !.pa = 0, !.rt = 1]
Held(L) == {L.v[s] : s \in {x \in Slots : L.v[x] # 0 /\ ~IsLayer(L.kx[x])}}
=============================================================================
