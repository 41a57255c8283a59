------------------------------- MODULE LSplitMC -------------------------------
(* All full leaves of a small width, all new keys: there is a split point, and   *)
(* splitting there and adding the key gives two leaves that a search by bound    *)
(* finds everything in.                                                          *)
EXTENDS LSplit, TLC
CONSTANTS W, Top, Group, Above

VARIABLES ents, done, ik, right, bound
vars == <<ents, done, ik, right, bound>>

Entry(s, k) == <<s, k, 0, 10 * s + k>>
Init == ents = <<>> /\ done = 0 /\ ik = 0 /\ right = <<>> /\ bound = 0

\* fill the leaf in order; keys of one slice may come in any order
Fill == /\ done = 0 /\ Len(ents) < W /\ UNCHANGED <<done, ik, right, bound>>
        /\ \E s \in 1..Top, k \in 0..(Group - 1) :
              /\ CanAdd(ents, Entry(s, k))
              /\ Len(ents) > 0 => Slice(ents[Len(ents)]) <= s
              /\ ents' = Append(ents, Entry(s, k))
Split == /\ done = 0 /\ Len(ents) = W
         /\ \E s \in 0..(Top + 1) :
              LET at == SplitPoint(ents, s, Above)
              IN  /\ ik' = s /\ done' = 1
                  /\ IF at = 0 THEN UNCHANGED <<ents, right, bound>>
                     ELSE /\ ents' = SplitLeaf([ents |-> ents, next |-> 0], at).ents
                          /\ right' = NewRight([ents |-> ents, next |-> 0, bound |-> 0, prev |-> 0], at).ents
                          /\ bound' = Slice(ents[at + 1])
Next == Fill \/ Split
Spec == Init /\ [][Next]_vars

Found == done = 1 => right # <<>> /\ ents # <<>>
\* a search for a slice goes right exactly if the slice is not below the bound
Separated == done = 1 /\ right # <<>> =>
    /\ \A e \in Range(ents) : Slice(e) < bound
    /\ \A e \in Range(right) : Slice(e) >= bound
Nothing_lost == done = 1 => Len(ents) + Len(right) = W
=============================================================================
