------------------------------- MODULE VersionMC ------------------------------
(* The version word as the code keeps it, bit by bit and one access at a time:   *)
(* writers load, compare and exchange, mark with load and store, and release     *)
(* with one store of a value computed from what they last wrote; readers take a  *)
(* clean word, read two cells, and ask whether the word changed or is held.      *)
(* A ghost word of the specification (Version) moves along.                      *)
(* Fault names one departure: "" none, "bump" releases do not count, "store" the *)
(* lock is a store, "changed" readers do not ask whether the word is held,       *)
(* "carry" insertions run over unnoticed, "forget" a holder stops without        *)
(* releasing, "root" an insertion drops the root mark.                           *)
EXTENDS Version, FiniteSets, TLC
CONSTANTS Writers, Readers, Rounds, Tries, NV, NS, Fault

VARIABLES w, g, x, y, n, pc, ld, left, rpc, k, kg, rx, ry, tries, accepted, kn
vars == <<w, g, x, y, n, pc, ld, left, rpc, k, kg, rx, ry, tries, accepted, kn>>
\* w: the bits; g: the ghost; x, y: cells written under the lock; ld: what a
\* writer loaded or last wrote; k, kg: what a reader took, as bits and as ghost;
\* kn: all clean words ever taken, with their ghosts

Bits == [lk : BOOLEAN, ins : BOOLEAN, spl : BOOLEAN, vi : 0..(Wide - 1), vs : 0..(NS - 1), root : BOOLEAN]
FirstBits == [lk |-> FALSE, ins |-> FALSE, spl |-> FALSE, vi |-> 0, vs |-> 0, root |-> TRUE]
Init == /\ w = FirstBits /\ g = Word(Nobody, FALSE, TRUE, TRUE, 0)
        /\ x = 0 /\ y = 0 /\ n = 0
        /\ pc = [t \in Writers |-> "load"] /\ ld = [t \in Writers |-> FirstBits] /\ left = [t \in Writers |-> Rounds]
        /\ rpc = [r \in Readers |-> "stable"] /\ k = [r \in Readers |-> FirstBits] /\ kg = [r \in Readers |-> g]
        /\ rx = [r \in Readers |-> 0] /\ ry = [r \in Readers |-> 0] /\ tries = [r \in Readers |-> Tries]
        /\ accepted = TRUE /\ kn = {}

Dirty(b) == b.ins \/ b.spl
rvars == <<rpc, k, kg, rx, ry, tries, accepted, kn>>

Load(t) == /\ pc[t] = "load" /\ left[t] > 0
           /\ ~(w.lk \/ Dirty(w))
           /\ ld' = [ld EXCEPT ![t] = w] /\ pc' = [pc EXCEPT ![t] = "cas"]
           /\ UNCHANGED <<w, g, x, y, n, left>> /\ UNCHANGED rvars
Cas(t) == /\ pc[t] = "cas"
          /\ IF w = ld[t] \/ Fault = "store"
             THEN \E b \in {[ld[t] EXCEPT !.lk = TRUE, !.ins = TRUE]} :
                    w' = b /\ ld' = [ld EXCEPT ![t] = b] /\ g' = Acquired(g, t) /\ pc' = [pc EXCEPT ![t] = "held"]
             ELSE pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<w, g, ld>>
          /\ UNCHANGED <<x, y, n, left>> /\ UNCHANGED rvars
\* what the holder does: perhaps mark a split (load, then store), then write
Held(t) == /\ pc[t] = "held"
           /\ pc' = [pc EXCEPT ![t] = IF Fault = "forget" THEN "gone" ELSE "wx"]
           /\ \/ UNCHANGED <<w, g, ld>>
              \/ /\ w' = [w EXCEPT !.spl = TRUE] /\ ld' = [ld EXCEPT ![t].spl = TRUE] /\ g' = MarkSplit(g)
           /\ UNCHANGED <<x, y, n, left>> /\ UNCHANGED rvars
WriteX(t) == pc[t] = "wx" /\ n' = n + 1 /\ x' = n + 1 /\ pc' = [pc EXCEPT ![t] = "wy"]
             /\ UNCHANGED <<w, g, y, ld, left>> /\ UNCHANGED rvars
WriteY(t) == pc[t] = "wy" /\ y' = x /\ pc' = [pc EXCEPT ![t] = "rel"]
             /\ UNCHANGED <<w, g, x, n, ld, left>> /\ UNCHANGED rvars
RelBits(b) ==
    IF Fault = "bump" THEN [b EXCEPT !.lk = FALSE, !.ins = FALSE, !.spl = FALSE, !.root = @ /\ ~b.spl]
    ELSE IF b.spl THEN [b EXCEPT !.lk = FALSE, !.ins = FALSE, !.spl = FALSE, !.vi = 0, !.vs = (@ + 1) % NS, !.root = FALSE]
    ELSE [b EXCEPT !.lk = FALSE, !.ins = FALSE, !.vi = (@ + 1) % Wide,
                   !.vs = IF b.vi + 1 = Wide /\ Fault # "carry" THEN (@ + 1) % NS ELSE @,
                   !.root = @ /\ Fault # "root"]
Release(t) == /\ pc[t] = "rel"
              /\ w' = RelBits(ld[t]) /\ g' = Released(g)
              /\ left' = [left EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "load"]
              /\ UNCHANGED <<x, y, n, ld>> /\ UNCHANGED rvars

Stable(r) == /\ rpc[r] = "stable" /\ tries[r] > 0
             /\ ~Dirty(w)
             /\ k' = [k EXCEPT ![r] = w] /\ kg' = [kg EXCEPT ![r] = g]
             /\ kn' = kn \cup {<<w, g>>}
             /\ rpc' = [rpc EXCEPT ![r] = "x"]
             /\ UNCHANGED <<w, g, x, y, n, pc, ld, left, rx, ry, tries, accepted>>
ReadX(r) == rpc[r] = "x" /\ rx' = [rx EXCEPT ![r] = x] /\ rpc' = [rpc EXCEPT ![r] = "y"]
            /\ UNCHANGED <<w, g, x, y, n, pc, ld, left, k, kg, ry, tries, accepted, kn>>
ReadY(r) == rpc[r] = "y" /\ ry' = [ry EXCEPT ![r] = y] /\ rpc' = [rpc EXCEPT ![r] = "check"]
            /\ UNCHANGED <<w, g, x, y, n, pc, ld, left, k, kg, rx, tries, accepted, kn>>
BitsChanged(b, o) == b.vi # o.vi \/ b.vs # o.vs \/ b.root # o.root \/ b.spl # o.spl
Check(r) == /\ rpc[r] = "check"
            /\ LET no == BitsChanged(w, k[r]) \/ (Dirty(w) /\ Fault # "changed")
               IN  accepted' = (accepted /\ (no \/ rx[r] = ry[r]))
            /\ tries' = [tries EXCEPT ![r] = @ - 1] /\ rpc' = [rpc EXCEPT ![r] = "stable"]
            /\ UNCHANGED <<w, g, x, y, n, pc, ld, left, k, kg, rx, ry, kn>>

WStep(t) == Load(t) \/ Cas(t) \/ Held(t) \/ WriteX(t) \/ WriteY(t) \/ Release(t)
RStep(r) == Stable(r) \/ ReadX(r) \/ ReadY(r) \/ Check(r)
Next == (\E t \in Writers : WStep(t)) \/ (\E r \in Readers : RStep(r))
Fair == /\ \A t \in Writers : SF_vars(Load(t)) /\ SF_vars(Cas(t)) /\ WF_vars(Held(t)) /\ WF_vars(WriteX(t)) /\ WF_vars(WriteY(t)) /\ WF_vars(Release(t))
        /\ \A r \in Readers : SF_vars(RStep(r))
Spec == Init /\ [][Next]_vars /\ Fair

Bounded == n <= NV
Holding(t) == pc[t] \in {"held", "wx", "wy", "rel", "gone"}
Exclusive == \A s, t \in Writers : Holding(s) /\ Holding(t) => s = t
Undisturbed == accepted
\* the bits mean the ghost
Means == /\ w.lk = (g.own # Nobody) /\ w.ins = g.ins /\ w.spl = g.spl /\ w.root = g.root
Answers == \A p \in kn : g.vs - p[2].vs < NS =>   \* the counter has not come round
              /\ BitsChanged(w, p[1]) = Changed(g, p[2])
              /\ SplitOk(w.vs # p[1].vs \/ w.root # p[1].root, g, p[2])
\* everybody gets the lock and is done
Done == <>(\A t \in Writers : left[t] = 0)
=============================================================================
