------------------------------- MODULE Version -------------------------------
(* The version word of a node: a lock, the marks of a modification in progress,  *)
(* the node's kind, root and deleted status, and a history that only grows.      *)
(*   own   the thread holding the lock, or Nobody                                *)
(*   ins, spl, del, root, leaf   the marks                                       *)
(*   ep    releases so far; sp    those that ended a split                       *)
(*   ic    insertions since the last split (Wide of them count as a split, too:  *)
(*         a reader may then be told "split" without one); vs = sp plus these    *)
EXTENDS Integers, Sequences
CONSTANTS Nobody, Wide

Word(own, spl, root, leaf, ic) ==
    [own |-> own, ins |-> FALSE, spl |-> spl, del |-> FALSE, root |-> root, leaf |-> leaf, ep |-> 0, sp |-> 0, ic |-> ic, vs |-> 0]

Busy(w) == w.own # Nobody \/ w.ins \/ w.spl
Clean(w) == ~w.ins /\ ~w.spl

MayAcquire(w) == ~Busy(w)
Acquired(w, t) == [w EXCEPT !.own = t, !.ins = TRUE]
MarkInsert(w) == [w EXCEPT !.ins = TRUE]
MarkSplit(w) == [w EXCEPT !.spl = TRUE]
MarkDeleted(w) == [w EXCEPT !.spl = TRUE, !.del = TRUE]
MarkRoot(w) == [w EXCEPT !.root = TRUE]
MarkNonroot(w) == [w EXCEPT !.root = FALSE]
\* one who ends a split leaves the root role to the node above
Released(w) ==
    LET over == ~w.spl /\ w.ic + 1 = Wide
    IN  [w EXCEPT !.own = Nobody, !.ins = FALSE, !.spl = FALSE,
                  !.root = w.root /\ ~w.spl,
                  !.ep = @ + 1, !.sp = IF w.spl THEN @ + 1 ELSE @,
                  !.ic = IF w.spl \/ over THEN 0 ELSE @ + 1,
                  !.vs = IF w.spl \/ over THEN @ + 1 ELSE @]
\* the sibling a split creates: held by the splitter from birth, nobody's root
Sibling(w, t) == [Word(t, TRUE, FALSE, w.leaf, 0) EXCEPT !.own = t]

\* what a reader who took the clean word k is told about the word w
Status(w, k) == w.del # k.del \/ w.root # k.root
Changed(w, k) == w.ep # k.ep \/ w.spl \/ Status(w, k)
ChangedOrLocked(w, k) == Changed(w, k) \/ ~Clean(w)
SplitMust(w, k) == w.sp # k.sp \/ Status(w, k)
SplitMay(w, k) == w.vs # k.vs \/ Status(w, k)
SplitOk(r, w, k) == (SplitMust(w, k) => r) /\ (r => SplitMay(w, k))
=============================================================================
