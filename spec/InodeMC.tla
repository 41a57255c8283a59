------------------------------- MODULE InodeMC -------------------------------
(* One interior level over children that own ranges of slices.  Children split  *)
(* at any slice inside their range; the level grows, then splits.               *)
EXTENDS Inode, TLC

CONSTANTS W, Top, Mistake
VARIABLES keys, kids, lo, hi, up, rkeys, rkids
vars == <<keys, kids, lo, hi, up, rkeys, rkids>>

Slices == 0..Top
Init == keys = <<>> /\ kids = <<1>> /\ lo = <<0>> /\ hi = <<Top + 1>> /\ up = -1 /\ rkeys = <<>> /\ rkids = <<>>

Child(ik) == kids[Route(keys, ik) + 1]
\* the child that holds slice s - 1 and s splits between them; its upper part is new
SplitChild(s) ==
    LET c == kids[Place(keys, s) + 1]
        n == Len(lo) + 1
        p == Place(keys, s)
        k1 == InsKeys(keys, p, s)
        c1 == InsKids(kids, p, n)
    IN  /\ up = -1 /\ lo[c] < s /\ s < hi[c]
        /\ lo' = Append(lo, s) /\ hi' = Append([hi EXCEPT ![c] = s], hi[c])
        /\ IF Len(keys) < W
           THEN keys' = k1 /\ kids' = c1 /\ UNCHANGED <<up, rkeys, rkids>>
           ELSE /\ keys' = SplitLeft(W, k1, c1)[1] /\ kids' = SplitLeft(W, k1, c1)[2]
                /\ up' = (IF Mistake = "up" THEN k1[Mid(W)] ELSE SplitUp(W, k1))
                /\ rkeys' = SplitRight(W, k1, c1)[1] /\ rkids' = SplitRight(W, k1, c1)[2]
Next == \E s \in Slices : SplitChild(s)
Spec == Init /\ [][Next]_vars

Dest(ik) == IF up = -1 \/ ik < up THEN Child(ik) ELSE rkids[Route(rkeys, ik) + 1]
Routing == \A ik \in Slices : lo[Dest(ik)] <= ik /\ ik < hi[Dest(ik)]
Shape == /\ Len(kids) = Len(keys) + 1 /\ Len(keys) <= W
         /\ \A i \in 1..(Len(keys) - 1) : keys[i] < keys[i + 1]
         /\ up >= 0 => Len(rkids) = Len(rkeys) + 1 /\ Len(keys) + Len(rkeys) = W
         /\ Len(kids) + Len(rkids) = Len(lo)
=============================================================================
