-------------------------------- MODULE SlotMC --------------------------------
(* The representation: one counter per value, raised by clones and lowered by    *)
(* drops; the value goes when the counter reaches zero.  It must count exactly   *)
(* the holders of Slot.  Fault: "borrow" reads a raw pointer without raising,    *)
(* "lose" swaps without handing the old value out, "same" makes a raw pointer    *)
(* from an output it does not own.                                               *)
EXTENDS Slot, TLC
CONSTANTS Vals, NSlots, MaxOut, MaxRaw, Fault

VARIABLES slots, outs, raws, cnt, gone
vars == <<slots, outs, raws, cnt, gone>>
Init == /\ slots = [i \in 1..NSlots |-> Empty] /\ outs = [v \in Vals |-> 0] /\ raws = <<>>
        /\ cnt = [v \in Vals |-> 0] /\ gone = {}
\* raise and lower by what an operation does to each value
Count(d) == /\ cnt' = [v \in Vals |-> cnt[v] + d[v]]
            /\ gone' = gone \cup {v \in Vals : d[v] # 0 /\ cnt[v] + d[v] = 0}
One(v, n) == [x \in Vals |-> IF x = v THEN n ELSE 0]
Both(v, n, w, m) == [x \in Vals |-> (IF x = v THEN n ELSE 0) + (IF x = w THEN m ELSE 0)]
Fresh(v) == cnt[v] = 0 /\ v \notin gone
Put(s, c) == slots' = [slots EXCEPT ![s] = c]
Room(v) == outs[v] < MaxOut

New(v) == Fresh(v) /\ outs' = Add(outs, v, 1) /\ Count(One(v, 1)) /\ UNCHANGED <<slots, raws>>
From(v, s) == outs[v] > 0 /\ Put(s, Holds(v)) /\ outs' = Add(outs, v, -1) /\ Count(One(ValueIn(slots[s]), -1)) /\ UNCHANGED raws
Get(s) == LET v == ValueIn(slots[s]) IN v # 0 /\ Room(v) /\ outs' = Add(outs, v, 1) /\ Count(One(v, 1)) /\ UNCHANGED <<slots, raws>>
Swap(v, s) == LET w == ValueIn(slots[s])
              IN /\ outs[v] > 0 /\ slots[s][1] # 2 /\ (IF w = 0 THEN TRUE ELSE Room(w)) /\ Put(s, Holds(v))
                 /\ outs' = (IF Fault = "lose" THEN Add(outs, v, -1) ELSE Add(Add(outs, v, -1), w, 1))
                 /\ UNCHANGED <<raws, cnt, gone>>
Take(s, d) == s # d /\ slots' = [slots EXCEPT ![d] = slots[s], ![s] = Empty] /\ Count(One(ValueIn(slots[d]), -1)) /\ UNCHANGED <<outs, raws>>
Copy(s, d) == s # d /\ Put(d, slots[s]) /\ Count(Both(ValueIn(slots[s]), 1, ValueIn(slots[d]), -1)) /\ UNCHANGED <<outs, raws>>
SetLayer(s) == Put(s, Layer(1)) /\ Count(One(ValueIn(slots[s]), -1)) /\ UNCHANGED <<outs, raws>>
DropOut(v) == outs[v] > 0 /\ outs' = Add(outs, v, -1) /\ Count(One(v, -1)) /\ UNCHANGED <<slots, raws>>
RawOf(v, r) == /\ outs[v] > 0 /\ r \notin DOMAIN raws /\ raws' = With(raws, r, v) /\ UNCHANGED <<slots, outs>>
               /\ (IF Fault = "same" THEN UNCHANGED <<cnt, gone>> ELSE Count(One(v, 1)))
RawFrom(r) == /\ Room(raws[r]) /\ outs' = Add(outs, raws[r], 1) /\ UNCHANGED <<slots, raws>>
              /\ (IF Fault = "borrow" THEN UNCHANGED <<cnt, gone>> ELSE Count(One(raws[r], 1)))
Consume(v, r) == outs[v] > 0 /\ r \notin DOMAIN raws /\ raws' = With(raws, r, v) /\ outs' = Add(outs, v, -1) /\ UNCHANGED <<slots, cnt, gone>>
Clean(r) == raws' = Without(raws, r) /\ Count(One(raws[r], -1)) /\ UNCHANGED <<slots, outs>>

Next == \/ \E v \in Vals : New(v) \/ DropOut(v) \/ \E s \in 1..NSlots : From(v, s) \/ Swap(v, s)
        \/ \E s \in 1..NSlots : Get(s) \/ SetLayer(s) \/ \E d \in 1..NSlots : Take(s, d) \/ Copy(s, d)
        \/ \E r \in 1..MaxRaw : (\E v \in Vals : RawOf(v, r) \/ Consume(v, r)) \/ (r \in DOMAIN raws /\ (RawFrom(r) \/ Clean(r)))
Spec == Init /\ [][Next]_vars

Exact == \A v \in Vals : cnt[v] = Holders(slots, outs, raws, v)
NeverBack == \A v \in gone : cnt[v] = 0
=============================================================================
