-------------------------------- MODULE Freeze --------------------------------
(* A leaf's permutation word as everybody sees it: a value, and whether it is   *)
(* frozen.  w = [val, fz].                                                      *)
EXTENDS Naturals, Sequences, FiniteSets

Word(v, f) == [val |-> v, fz |-> f]

MayFreeze(w) == ~w.fz
Frozen(w) == Word(w.val, TRUE)
\* publication by compare-and-swap
MayCas(w, exp) == ~w.fz /\ w.val = exp
Published(w, new) == Word(new, FALSE)
\* the freezer ends the freeze with its own value, or gives up
Released(w, new) == Word(new, FALSE)
GivenUp(w, snap) == Word(snap, FALSE)
=============================================================================
