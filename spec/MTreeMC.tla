------------------------------ MODULE MTreeMC ------------------------------
(* The algorithm, one shared access (or one group of accesses that only the      *)
(* holder of a lock can make) at a time: lookups that take no lock and trust      *)
(* what they read if the version has not changed and nobody holds the lock;       *)
(* inserts that lock a leaf, check that it is still the right one, and change     *)
(* it; splits that hand a lock over from child to parent, level by level; layers   *)
(* that come into being under an entry, and grow roots of their own.              *)
(* Small capacities make every kind of step happen within a few operations.       *)
(*                                                                            *)
(* Fault names one departure from the algorithm:                                *)
(*   "held"    readers trust a node whose version has not changed, held or not    *)
(*   "marked"  a lookup takes a marked link for the end of the chain              *)
(*   "main"    an insert that hopped too often in a layer restarts at the main root *)
(*   "post"    an insert does not check again, once it has the lock                *)
(*   "early"   the left part is released before the parent knows the right one     *)
(*   "orphan"  a new sibling is released before it has a parent                   *)
(*   "recheck" the parent is not checked again, once it is locked                  *)
(*   "rounds"  a split gives up after its parent changed under it a few times      *)
(*   "cut"     a split may come between entries of one slice                       *)
EXTENDS MTree
CONSTANTS W, IW, HopLimit, Scenes, Fault

VARIABLES
    mem,     \* node -> record; ns of the tree plus lk (holder or 0), spl, mark, vi, vs, root
    was,     \* locked node -> its contents when it was locked (or born locked)
    top,     \* the root pointer
    th,      \* thread -> local state
    todo,    \* thread -> operations to come, each <<op, key>>
    setup,   \* how many operations of thread 1 come before all others start
    map,     \* key -> value
    scene
vars == <<mem, was, top, th, todo, setup, map, scene>>

Keys == scene.keys
Threads == DOMAIN th
Idle == [pc |-> "idle", op |-> "", key |-> 0, val |-> 0, d |-> 0, start |-> 0, node |-> 0, vi |-> 0, vs |-> 0, v2i |-> 0, v2s |-> 0,
         orig |-> 0, hops |-> 0, after |-> "", res |-> 0, tgt |-> 0, left |-> 0, right |-> 0, sep |-> 0, par |-> 0,
         main |-> FALSE, layer |-> FALSE, fresh |-> [x \in {} |-> 0], trs |-> {}, seen |-> {}]

LeafNode(ents, bound) == [t |-> "L", par |-> 0, prev |-> 0, next |-> 0, bound |-> bound, ents |-> ents,
                          lk |-> 0, spl |-> FALSE, mark |-> FALSE, vi |-> 0, vs |-> 0, root |-> TRUE]
InnerNode(h, keys, kids) == [t |-> "I", par |-> 0, h |-> h, keys |-> keys, kids |-> kids,
                             lk |-> 0, spl |-> FALSE, vi |-> 0, vs |-> 0, root |-> TRUE]
NewId(k) == Cardinality(DOMAIN mem) + k

Init == /\ scene \in Scenes
        /\ mem = (1 :> LeafNode(<<>>, 0))
        /\ was = [x \in {} |-> 0]
        /\ top = 1
        /\ th = [t \in 1..Len(scene.progs) |-> Idle]
        /\ todo = [t \in 1..Len(scene.progs) |->
                      (IF t = 1 THEN [i \in 1..Len(scene.pre) |-> <<"ins", scene.pre[i]>>] ELSE <<>>) \o scene.progs[t]]
        /\ setup = Len(scene.pre)
        /\ map = [k \in 1..Len(scene.keys) |-> 0]

-----------------------------------------------------------------------------
T(t) == th[t]
Set(t, r) == th' = [th EXCEPT ![t] = r]
C(t) == Keys[T(t).key][T(t).d]
Sl(t) == C(t)[1]
At(t) == mem[T(t).node]
Free(x) == mem[x].lk = 0
Same2(n, r) == n.vi = r.vi /\ n.vs = r.vs
Changed(n, r) == ~Same2(n, r) \/ (n.lk # 0 /\ Fault # "held")
Take(r, n) == [r EXCEPT !.vi = n.vi, !.vs = n.vs]
Past(n, s) == n.next # 0 /\ mem[n.next].bound <= s
Same3 == UNCHANGED <<todo, setup, scene>>
Quiet3 == UNCHANGED <<mem, was, top, map>>

Locked(x, t) == [mem EXCEPT ![x].lk = t]
Unl(n) == IF n.spl THEN [n EXCEPT !.lk = 0, !.spl = FALSE, !.vs = @ + 1, !.vi = 0]
          ELSE [n EXCEPT !.lk = 0, !.vi = @ + 1]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

-----------------------------------------------------------------------------
(* Calls and returns.                                                         *)

Begin(t) ==
    /\ T(t).pc = "idle" /\ todo[t] # <<>>
    /\ t = 1 \/ setup = 0
    /\ LET o == Head(todo[t]) IN
       Set(t, [Idle EXCEPT !.pc = "climb", !.op = o[1], !.key = o[2], !.val = t * 100 + Len(todo[t]), !.d = 1, !.start = top,
                           !.seen = {map[o[2]]}])
    /\ todo' = [todo EXCEPT ![t] = Tail(@)]
    /\ UNCHANGED <<mem, was, top, setup, map, scene>>
\* a return: the specification decides whether the answer is right
Answer(t, r) ==
    /\ Set(t, [Idle EXCEPT !.pc = IF r \in T(t).seen THEN "idle" ELSE "wrong"])
    /\ setup' = IF t = 1 /\ setup > 0 THEN setup - 1 ELSE setup
Commit(t) == map' = [map EXCEPT ![T(t).key] = T(t).val]
Seen(t) == [u \in Threads |-> IF u # t /\ th[u].op = "get" /\ th[u].key = T(t).key
                              THEN [th[u] EXCEPT !.seen = @ \cup {T(t).val}] ELSE th[u]]

-----------------------------------------------------------------------------
(* Down to a leaf.                                                            *)

Climb1(t) ==
    /\ T(t).pc = "climb"
    /\ LET p == mem[T(t).start].par IN
       Set(t, IF p = 0 THEN [T(t) EXCEPT !.pc = "ds", !.node = T(t).start] ELSE [T(t) EXCEPT !.start = p])
    /\ Quiet3 /\ Same3
DescStable(t) ==
    /\ T(t).pc = "ds" /\ Free(T(t).node)
    /\ Set(t, IF IsLeaf(At(t)) THEN [T(t) EXCEPT !.pc = IF T(t).op = "get" THEN "gs" ELSE "adv", !.hops = 0]
              ELSE [Take(T(t), At(t)) EXCEPT !.pc = "dr"])
    /\ Quiet3 /\ Same3
DescRead(t) ==
    /\ T(t).pc = "dr"
    /\ LET n == At(t)   r == [T(t) EXCEPT !.vi = 0, !.vs = 0, !.pc = "ds"] IN
       Set(t, IF ~Changed(n, T(t)) THEN [r EXCEPT !.node = ChildFor(n, Sl(t))]
              ELSE IF n.vs # T(t).vs THEN [r EXCEPT !.node = T(t).start] ELSE r)
    /\ Quiet3 /\ Same3

-----------------------------------------------------------------------------
(* Lookups.                                                                   *)

GetStable(t) ==
    /\ T(t).pc = "gs" /\ Free(T(t).node)
    /\ Set(t, [Take(T(t), At(t)) EXCEPT !.pc = "look"])
    /\ Quiet3 /\ Same3
Look(t) ==
    /\ T(t).pc = "look"
    /\ LET n == At(t)   c == C(t)   p == HitPos(n, c[1], c[2])   e == n.ents[p]
           hit == p # 0 /\ Val(e) # 0 /\ ~(Kind(e) = Suf /\ Sfx(e) # c[3])
           r == [T(t) EXCEPT !.vi = 0, !.vs = 0] IN
       IF Changed(n, T(t)) THEN Set(t, [T(t) EXCEPT !.pc = "ga0", !.orig = T(t).node]) /\ UNCHANGED setup
       ELSE IF hit /\ Kind(e) = Lay THEN Set(t, [r EXCEPT !.pc = "climb", !.start = Val(e), !.d = @ + 1, !.node = 0]) /\ UNCHANGED setup
       ELSE IF hit THEN Answer(t, Val(e))
       ELSE Set(t, [r EXCEPT !.pc = "dirty"]) /\ UNCHANGED setup
    /\ Quiet3 /\ UNCHANGED <<todo, scene>>
Dirty(t) ==
    /\ T(t).pc = "dirty"
    /\ Set(t, [T(t) EXCEPT !.pc = IF Free(T(t).node) THEN "next" ELSE "gs"])
    /\ Quiet3 /\ Same3
NextLeaf(t) ==
    /\ T(t).pc = "next"
    /\ IF Past(At(t), Sl(t)) /\ ~(Fault = "marked" /\ At(t).mark)
       THEN Set(t, [T(t) EXCEPT !.pc = "gs", !.node = At(t).next]) /\ UNCHANGED setup
       ELSE Answer(t, 0)
    /\ Quiet3 /\ UNCHANGED <<todo, scene>>

\* a lookup that was disturbed
Adv0(t) ==
    /\ T(t).pc = "ga0" /\ Free(T(t).node)
    /\ Set(t, [T(t) EXCEPT !.pc = "ga1", !.v2i = At(t).vi, !.v2s = At(t).vs])
    /\ Quiet3 /\ Same3
Clean(r) == [r EXCEPT !.v2i = 0, !.v2s = 0, !.orig = 0]
Adv1(t) ==
    /\ T(t).pc = "ga1"
    /\ Set(t, IF At(t).vs = T(t).vs /\ ~At(t).spl THEN Clean([T(t) EXCEPT !.pc = "look", !.vi = T(t).v2i, !.vs = T(t).v2s])
              ELSE [T(t) EXCEPT !.pc = "ga2"])
    /\ Quiet3 /\ Same3
Adv2(t) ==
    /\ T(t).pc = "ga2" /\ Free(T(t).node)
    /\ Set(t, [T(t) EXCEPT !.pc = "ga3", !.v2i = At(t).vi, !.v2s = At(t).vs])
    /\ Quiet3 /\ Same3
Adv3(t) ==
    /\ T(t).pc = "ga3" /\ ~At(t).mark
    /\ Set(t, IF Past(At(t), Sl(t)) THEN [T(t) EXCEPT !.pc = "ga2", !.node = At(t).next]
              ELSE IF T(t).node # T(t).orig THEN Clean([T(t) EXCEPT !.pc = "gs", !.vi = 0, !.vs = 0])
              ELSE Clean([T(t) EXCEPT !.pc = "look", !.vi = T(t).v2i, !.vs = T(t).v2s]))
    /\ Quiet3 /\ Same3

-----------------------------------------------------------------------------
(* Inserts.                                                                   *)

Bound(t) ==
    /\ T(t).pc = "adv"
    /\ IF T(t).hops >= HopLimit
       THEN Set(t, [T(t) EXCEPT !.pc = "climb", !.hops = 0, !.node = 0,
                                !.start = IF T(t).d = 1 \/ Fault = "main" THEN top ELSE @])
       ELSE /\ ~At(t).mark
            /\ Set(t, IF Past(At(t), Sl(t)) THEN [T(t) EXCEPT !.node = At(t).next, !.hops = @ + 1]
                      ELSE [T(t) EXCEPT !.pc = "lock", !.hops = 0])
    /\ Quiet3 /\ Same3
LockLeaf(t) ==
    /\ T(t).pc = "lock" /\ Free(T(t).node)
    /\ mem' = Locked(T(t).node, t)
    /\ was' = was @@ (T(t).node :> At(t))
    /\ Set(t, [T(t) EXCEPT !.pc = "post"])
    /\ UNCHANGED <<top, map>> /\ Same3

\* the layer that tells two keys apart: the rests of the old and of the new key, the
\* entries made of them, and the nodes from id on
Ent(rest, v) == <<rest[1][1], rest[1][2], rest[1][3], v>>
RECURSIVE Chain2(_, _, _, _, _)
Chain2(old, ov, new, nv, id) ==
    IF old[1][1] = new[1][1] /\ old[1][2] = Suf /\ new[1][2] = Suf
    THEN (id :> LeafNode(<< <<old[1][1], Lay, 0, id + 1>> >>, old[1][1])) @@ Chain2(Tail(old), ov, Tail(new), nv, id + 1)
    ELSE LET a == Ent(old, ov)   b == Ent(new, nv)
             s == IF Slice(a) <= Slice(b) THEN <<a, b>> ELSE <<b, a>>
         IN  id :> LeafNode(s, Slice(s[1]))

Post(t) ==
    /\ T(t).pc = "post"
    /\ LET n == At(t)   x == T(t).node   c == C(t)   p == HitPos(n, c[1], c[2])   e == n.ents[p] IN
       IF Fault # "post" /\ Past(n, c[1])
       THEN Set(t, [T(t) EXCEPT !.pc = "rel", !.after = "retry"]) /\ UNCHANGED mem
       ELSE IF p # 0 /\ Kind(e) = Lay
       THEN Set(t, [T(t) EXCEPT !.pc = "rel", !.after = "down", !.tgt = Val(e)]) /\ UNCHANGED mem
       ELSE IF p # 0 /\ Kind(e) = Suf /\ Sfx(e) # c[3]
       THEN \* the value goes to a layer of its own
            /\ mem' = [mem EXCEPT ![x].ents = Replace(@, p, 0)]
            /\ Set(t, [T(t) EXCEPT !.pc = "push", !.tgt = p, !.res = Val(e)])
       ELSE IF p # 0
       THEN /\ mem' = [mem EXCEPT ![x].ents = Replace(@, p, T(t).val)]
            /\ Set(t, [T(t) EXCEPT !.pc = "rel", !.after = "done", !.res = Val(e)])
       ELSE IF Len(n.ents) < W
       THEN /\ LET new == <<c[1], c[2], c[3], T(t).val>>
                   q == 1 + Cardinality({i \in 1..Len(n.ents) : Slice(n.ents[i]) <= c[1]})
               IN  mem' = [mem EXCEPT ![x].ents = InsertAtPos(@, q, new),
                                      ![x].bound = IF n.prev = 0 /\ n.ents = <<>> THEN c[1] ELSE @]
            /\ Set(t, [T(t) EXCEPT !.pc = "rel", !.after = "done"])
       ELSE /\ mem' = [mem EXCEPT ![x].spl = TRUE]
            /\ Set(t, [T(t) EXCEPT !.pc = "s1", !.left = x, !.main = n.root /\ top = x, !.layer = n.root /\ n.par = 0 /\ top # x])
    /\ UNCHANGED <<was, top, map>> /\ Same3
Push(t) ==
    /\ T(t).pc = "push"
    /\ LET x == T(t).node   p == T(t).tgt   e == At(t).ents[p]
           k == CHOOSE y \in DOMAIN Keys : Len(Keys[y]) > T(t).d /\ Keys[y][T(t).d] = <<e[1], e[2], e[3]>>
           f == Chain2(SubSeq(Keys[k], T(t).d + 1, Len(Keys[k])), T(t).res, SubSeq(Keys[T(t).key], T(t).d + 1, Len(Keys[T(t).key])), T(t).val, NewId(1))
       IN  /\ mem' = f @@ [mem EXCEPT ![x].ents = ToLayer(@, p, NewId(1))]
           /\ Set(t, [T(t) EXCEPT !.pc = "rel", !.after = "done", !.tgt = 0, !.res = 0, !.fresh = f])
    /\ UNCHANGED <<was, top, map>> /\ Same3
Release(t) ==
    /\ T(t).pc = "rel"
    /\ mem' = [mem EXCEPT ![T(t).node] = Unl(@)]
    /\ was' = Drop(was, T(t).node)
    /\ CASE T(t).after = "done" ->
              /\ Commit(t)
              /\ th' = [Seen(t) EXCEPT ![t] = [Idle EXCEPT !.pc = IF T(t).res = map[T(t).key] THEN "idle" ELSE "wrong"]]
              /\ setup' = IF t = 1 /\ setup > 0 THEN setup - 1 ELSE setup
         [] T(t).after = "retry" -> Set(t, [T(t) EXCEPT !.pc = "climb", !.node = 0, !.after = ""]) /\ UNCHANGED <<map, setup>>
         [] T(t).after = "down" -> /\ Set(t, [T(t) EXCEPT !.pc = "climb", !.node = 0, !.after = "", !.start = T(t).tgt, !.tgt = 0, !.d = @ + 1])
                                   /\ UNCHANGED <<map, setup>>
    /\ UNCHANGED <<top, todo, scene>>

-----------------------------------------------------------------------------
(* Splits.                                                                    *)

SplitLeaf(t) ==
    /\ T(t).pc = "s1"
    /\ LET x == T(t).node   n == At(t)
           r(p) == [LeafNode(Upper(n.ents, p), Slice(n.ents[p + 1])) EXCEPT !.lk = t, !.spl = TRUE, !.vi = n.vi, !.vs = n.vs,
                        !.root = FALSE, !.next = n.next, !.prev = x]
       IN  \E p \in {q \in 1..(Len(n.ents) - 1) : Fault = "cut" \/ MaySplitAt(n.ents, q)} :
             /\ mem' = (NewId(1) :> r(p)) @@ [mem EXCEPT ![x].ents = Lower(@, p)]
             /\ was' = was @@ (NewId(1) :> r(p))
             /\ Set(t, [T(t) EXCEPT !.pc = "s2", !.right = NewId(1), !.sep = Slice(n.ents[p + 1]), !.fresh = @ @@ (NewId(1) :> r(p)),
                                    !.trs = @ \cup {<<x, Slice(n.ents[p + 1]), NewId(1)>>}])
    /\ UNCHANGED <<top, map>> /\ Same3
MarkLink(t) ==
    /\ T(t).pc = "s2"
    /\ mem' = [mem EXCEPT ![T(t).node].mark = TRUE]
    /\ Set(t, [T(t) EXCEPT !.pc = "s3"])
    /\ UNCHANGED <<was, top, map>> /\ Same3
Link(t) ==
    /\ T(t).pc = "s3"
    /\ LET old == At(t).next   m == [mem EXCEPT ![T(t).node].next = T(t).right, ![T(t).node].mark = FALSE]
       IN  mem' = IF old = 0 THEN m ELSE [m EXCEPT ![old].prev = T(t).right]
    /\ Set(t, [T(t) EXCEPT !.pc = IF Fault = "early" THEN "e1" ELSE "prop"])
    /\ UNCHANGED <<was, top, map>> /\ Same3
\* (fault) the left part goes free at once
Early(t) ==
    /\ T(t).pc = "e1"
    /\ mem' = [mem EXCEPT ![T(t).left] = Unl(@)] /\ was' = Drop(was, T(t).left)
    /\ Set(t, [T(t) EXCEPT !.pc = "prop"])
    /\ UNCHANGED <<top, map>> /\ Same3

Prop(t) ==
    /\ T(t).pc = "prop"
    /\ LET p == mem[T(t).left].par IN
       Set(t, IF p # 0 THEN [T(t) EXCEPT !.pc = "plk", !.par = p]
              ELSE IF T(t).main \/ T(t).layer THEN [T(t) EXCEPT !.pc = IF Fault = "orphan" THEN "o1" ELSE "r1"]
              ELSE [T(t) EXCEPT !.pc = "panic"])
    /\ Quiet3 /\ Same3
NewRoot(t) ==
    /\ T(t).pc = "r1"
    /\ LET n == NewId(1)   l == mem[T(t).left]
           new == InnerNode(IF IsLeaf(l) THEN 0 ELSE l.h + 1, <<T(t).sep>>, <<T(t).left, T(t).right>>)
       IN  /\ mem' = mem @@ (n :> new)
           /\ top' = IF T(t).main THEN n ELSE top
           /\ Set(t, [T(t) EXCEPT !.pc = "r2", !.par = n, !.fresh = @ @@ (n :> new)])
    /\ UNCHANGED <<was, map>> /\ Same3
Adopt(t) ==
    /\ T(t).pc = "r2"
    /\ mem' = [mem EXCEPT ![T(t).left].par = T(t).par, ![T(t).left].root = FALSE]
    /\ Set(t, [T(t) EXCEPT !.pc = "r3"])
    /\ UNCHANGED <<was, top, map>> /\ Same3
Adopt2(t) ==
    /\ T(t).pc = "r3"
    /\ mem' = [mem EXCEPT ![T(t).right].par = T(t).par, ![T(t).right].root = FALSE]
    /\ Set(t, [T(t) EXCEPT !.pc = IF Fault = "orphan" THEN "u3" ELSE "u1", !.par = 0])
    /\ UNCHANGED <<was, top, map>> /\ Same3

LockParent(t) ==
    /\ T(t).pc = "plk" /\ Free(T(t).par)
    /\ mem' = Locked(T(t).par, t) /\ was' = was @@ (T(t).par :> mem[T(t).par])
    /\ Set(t, [T(t) EXCEPT !.pc = "chk"])
    /\ UNCHANGED <<top, map>> /\ Same3
Check(t) ==
    /\ T(t).pc = "chk"
    /\ LET p == T(t).par   n == mem[p]   again == mem[T(t).left].par # p \/ T(t).left \notin Range(n.kids) IN
       IF again /\ Fault # "recheck"
       THEN /\ mem' = [mem EXCEPT ![p] = Unl(@)] /\ was' = Drop(was, p)
            /\ Set(t, IF Fault = "rounds" /\ T(t).hops + 1 >= HopLimit THEN [T(t) EXCEPT !.pc = "panic"]
                      ELSE [T(t) EXCEPT !.pc = "prop", !.par = 0, !.hops = IF Fault = "rounds" THEN @ + 1 ELSE 0])
       ELSE IF Len(n.keys) < IW
       THEN \* half-way: room is made, the new child is not there yet
            /\ IF T(t).left \in Range(n.kids)
               THEN LET q == PosOf(n.kids, T(t).left) IN
                    mem' = [mem EXCEPT ![p].keys = InsertAtPos(@, q, n.keys[IF q > Len(n.keys) THEN q - 1 ELSE q]),
                                       ![p].kids = InsertAtPos(@, q + 1, n.kids[IF q = Len(n.kids) THEN q ELSE q + 1])]
               ELSE UNCHANGED mem
            /\ UNCHANGED was
            /\ Set(t, [T(t) EXCEPT !.pc = "add"])
       ELSE /\ mem' = [mem EXCEPT ![p].spl = TRUE] /\ UNCHANGED was
            /\ Set(t, [T(t) EXCEPT !.pc = "f1"])
    /\ UNCHANGED <<top, map>> /\ Same3
Add(t) ==
    /\ T(t).pc = "add"
    /\ LET p == T(t).par   n == was[p]   m == AddChild(n, T(t).left, T(t).sep, T(t).right)
       IN  IF T(t).left \in Range(n.kids)
           THEN /\ mem' = [mem EXCEPT ![p].keys = m.keys, ![p].kids = m.kids, ![T(t).right].par = p]
                /\ Set(t, [T(t) EXCEPT !.pc = "u1"])
           ELSE Set(t, [T(t) EXCEPT !.pc = "panic"]) /\ UNCHANGED mem
    /\ UNCHANGED <<was, top, map>> /\ Same3
\* the right part, the parent and the left part go free; then the insert starts again
FreeRight(t) ==
    /\ T(t).pc = "u1"
    /\ mem' = [mem EXCEPT ![T(t).right] = Unl(@)] /\ was' = Drop(was, T(t).right)
    /\ Set(t, [T(t) EXCEPT !.pc = IF T(t).par # 0 THEN "u2" ELSE "u3", !.right = 0])
    /\ UNCHANGED <<top, map>> /\ Same3
FreeParent(t) ==
    /\ T(t).pc = "u2"
    /\ mem' = [mem EXCEPT ![T(t).par] = Unl(@)] /\ was' = Drop(was, T(t).par)
    /\ Set(t, [T(t) EXCEPT !.pc = "u3", !.par = 0])
    /\ UNCHANGED <<top, map>> /\ Same3
Again(r) == [Idle EXCEPT !.pc = "climb", !.op = r.op, !.key = r.key, !.val = r.val, !.d = r.d, !.start = r.start, !.seen = r.seen]
FreeLeft(t) ==
    /\ T(t).pc = "u3"
    /\ IF mem[T(t).left].lk = t
       THEN mem' = [mem EXCEPT ![T(t).left] = Unl(@)] /\ was' = Drop(was, T(t).left)
       ELSE UNCHANGED <<mem, was>>
    /\ Set(t, Again(T(t)))
    /\ UNCHANGED <<top, map>> /\ Same3
\* (fault) the right part of a new root goes free before it has a parent
Orphan(t) ==
    /\ T(t).pc = "o1"
    /\ mem' = [mem EXCEPT ![T(t).right] = Unl(@)] /\ was' = Drop(was, T(t).right)
    /\ Set(t, [T(t) EXCEPT !.pc = "r1"])
    /\ UNCHANGED <<top, map>> /\ Same3

\* the parent is full: it splits as well, and is the left part of the next round
SplitParent(t) ==
    /\ T(t).pc = "f1"
    /\ LET p == T(t).par   n == mem[p]
           full == AddChild(n, T(t).left, T(t).sep, T(t).right)
           m == (Len(full.kids) + 1) \div 2
           s == [InnerNode(n.h, InUpper(full, m).keys, InUpper(full, m).kids) EXCEPT !.lk = t, !.spl = TRUE, !.vi = n.vi, !.vs = n.vs, !.root = FALSE]
       IN  IF T(t).left \notin Range(n.kids) THEN Set(t, [T(t) EXCEPT !.pc = "panic"]) /\ UNCHANGED <<mem, was>>
           ELSE /\ mem' = (NewId(1) :> s) @@ [mem EXCEPT ![p].keys = InLower(full, m).keys, ![p].kids = InLower(full, m).kids]
                /\ was' = was @@ (NewId(1) :> s)
                /\ Set(t, [T(t) EXCEPT !.pc = "f2", !.tgt = NewId(1), !.fresh = @ @@ (NewId(1) :> s), !.hops = full.keys[m],
                                       !.trs = @ \cup {<<p, full.keys[m], NewId(1)>>}])
    /\ UNCHANGED <<top, map>> /\ Same3
Reparent(t) ==
    /\ T(t).pc = "f2"
    /\ LET s == T(t).tgt   r == T(t).right IN
       mem' = [x \in DOMAIN mem |-> IF x \in Range(mem[s].kids) THEN [mem[x] EXCEPT !.par = s]
                                    ELSE IF x = r THEN [mem[x] EXCEPT !.par = T(t).par] ELSE mem[x]]
    /\ Set(t, [T(t) EXCEPT !.pc = "f3"])
    /\ UNCHANGED <<was, top, map>> /\ Same3
FreeRight2(t) ==
    /\ T(t).pc = "f3"
    /\ mem' = [mem EXCEPT ![T(t).right] = Unl(@)] /\ was' = Drop(was, T(t).right)
    /\ Set(t, [T(t) EXCEPT !.pc = "f4"])
    /\ UNCHANGED <<top, map>> /\ Same3
FreeLeft2(t) ==
    /\ T(t).pc = "f4"
    /\ IF mem[T(t).left].lk = t
       THEN mem' = [mem EXCEPT ![T(t).left] = Unl(@)] /\ was' = Drop(was, T(t).left)
       ELSE UNCHANGED <<mem, was>>
    /\ LET p == T(t).par IN
       Set(t, [T(t) EXCEPT !.pc = "prop", !.left = p, !.right = T(t).tgt, !.sep = T(t).hops, !.tgt = 0, !.hops = 0, !.par = 0,
                           !.main = top = p, !.layer = top # p /\ mem[p].par = 0 /\ mem[p].root])
    /\ UNCHANGED <<top, map>> /\ Same3

-----------------------------------------------------------------------------
Step(t) == \/ Begin(t) \/ Climb1(t) \/ DescStable(t) \/ DescRead(t)
           \/ GetStable(t) \/ Look(t) \/ Dirty(t) \/ NextLeaf(t) \/ Adv0(t) \/ Adv1(t) \/ Adv2(t) \/ Adv3(t)
           \/ Bound(t) \/ LockLeaf(t) \/ Post(t) \/ Push(t) \/ Release(t)
           \/ SplitLeaf(t) \/ MarkLink(t) \/ Link(t) \/ Early(t) \/ Prop(t) \/ NewRoot(t) \/ Adopt(t) \/ Adopt2(t) \/ Orphan(t)
           \/ LockParent(t) \/ Check(t) \/ Add(t) \/ FreeRight(t) \/ FreeParent(t) \/ FreeLeft(t)
           \/ SplitParent(t) \/ Reparent(t) \/ FreeRight2(t) \/ FreeLeft2(t)
AllDone == \A t \in Threads : T(t).pc = "idle" /\ todo[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in 1..3 : WF_vars(t \in Threads /\ Step(t))

-----------------------------------------------------------------------------
\* what everybody may rely on: a held node counts as it was
View == [x \in DOMAIN mem |-> IF mem[x].lk = 0 THEN mem[x]
                              ELSE IF IsLeaf(mem[x]) THEN [was[x] EXCEPT !.par = mem[x].par, !.prev = mem[x].prev]
                              ELSE [was[x] EXCEPT !.par = mem[x].par]]
NoWrong == \A t \in Threads : T(t).pc \notin {"wrong", "panic"}
Finding == Finds(Follow(View, [x \in DOMAIN mem |-> mem[x].lk]), top, Keys, map)
Tops == {top} \cup {x \in DOMAIN mem : mem[x].par = 0 /\ x # top /\ mem[x].lk = 0}
Clean2 == AllDone =>
    /\ \A x \in DOMAIN mem : mem[x].lk = 0 /\ (IsLeaf(mem[x]) => ~mem[x].mark)
    /\ \A x \in Tops : LayerFaults(mem, x, W, IW) = {}
    /\ \A x \in DOMAIN mem : mem[x].root <=> mem[x].par = 0

\* every release is one of the transitions of the tree
Bytes == [i \in 1..9 |-> <<i, 0, 0, 0, 0, 0, 0, 0>>]
\* a suffix stands for the first of its chunks' slice, as bytes
RECURSIVE Spell(_)
Spell(rest) == IF rest[1][2] = Suf THEN Bytes[rest[1][1]] \o Spell(Tail(rest)) ELSE SubSeq(Bytes[rest[1][1]], 1, rest[1][2])
SufBytes(s) == LET k == CHOOSE y \in DOMAIN Keys : \E d \in DOMAIN Keys[y] : Keys[y][d][2] = Suf /\ Keys[y][d][3] = s
                   d == CHOOSE d \in DOMAIN Keys[k] : Keys[k][d][2] = Suf /\ Keys[k][d][3] = s
               IN  Spell(SubSeq(Keys[k], d + 1, Len(Keys[k])))
SufIds == {Keys[y][d][3] : <<y, d>> \in {z \in (DOMAIN Keys) \X (1..3) : z[2] \in DOMAIN Keys[z[1]] /\ Keys[z[1]][z[2]][2] = Suf}}
Sufs == [s \in SufIds |-> SufBytes(s)]

LegalRelease(x) ==
    LET t == mem[x].lk   pre == was[x]   post == mem'[x]   r == th[t]   key == Keys[r.key] IN
    \/ Same(pre, post)
    \/ IsLeaf(pre) /\ Adds(pre, post, key, r.val, map[r.key])
    \/ IsLeaf(pre) /\ Replaces(pre, post, key, r.val, map[r.key])
    \/ IsLeaf(pre) /\ Pushes(pre, post, key, r.val, map[r.key], r.fresh, Bytes, Sufs)
    \/ IsLeaf(pre) /\ Parts(x, pre, post, r.fresh)
    \/ ~IsLeaf(pre) /\ GetsChild(pre, post, r.fresh) /\ ChildTriple(pre, post) \in r.trs
    \/ ~IsLeaf(pre) /\ Halves(pre, post, r.fresh, r.trs) # {}
Legal == \A x \in DOMAIN mem : (mem[x].lk # 0 /\ mem'[x].lk = 0) => LegalRelease(x)
AllLegal == [][Legal]_vars
Terminates == <>AllDone

-----------------------------------------------------------------------------
(* Scenes.                                                                    *)

K(s) == << <<s, 2, 0>> >>
KeysFlat == [i \in 1..9 |-> K(i)]
G(k) == <<"get", k>>
I(k) == <<"ins", k>>
\* two threads, one or two operations each, on leaves and parents about to split
SceneFlat == [keys : {KeysFlat}, pre : {<<2, 4>>, <<2, 4, 6>>, <<2, 4, 6, 8>>, <<2, 4, 6, 8, 9, 7>>},
              progs : {<< <<I(1)>>, <<I(3)>> >>, << <<I(5)>>, <<I(7)>> >>, << <<I(3)>>, <<G(4)>> >>, << <<I(1), I(3)>>, <<G(4)>> >>,
                       << <<I(5)>>, <<G(6)>> >>, << <<I(3)>>, <<I(3)>> >>, << <<I(4)>>, <<I(4)>> >>}]

\* one thread splits, the other gets to the parts
SceneSplit == [keys : {KeysFlat}, pre : {<<2, 4>>, <<2, 4, 8>>, <<2, 4, 6, 8, 3, 5>>},
               progs : {<< <<I(9)>>, <<I(5), I(6)>> >>, << <<I(1)>>, <<I(7)>> >>, << <<I(1)>>, <<I(7), I(9)>> >>,
                        << <<I(5), I(6)>>, <<I(7), I(9)>> >>, << <<I(1), I(3)>>, <<I(5), I(6)>> >>}]
\* three threads
SceneThree == [keys : {KeysFlat}, pre : {<<2, 4>>, <<2, 4, 6>>, <<2, 4, 6, 8, 3, 5>>},
               progs : {<< <<I(1)>>, <<I(3)>>, <<G(2)>> >>, << <<I(9)>>, <<I(5)>>, <<I(7)>> >>, << <<I(1)>>, <<I(7)>>, <<G(8)>> >>}]

\* keys that share a slice, so that layers come into being and grow
L(s, r) == << <<5, Suf, r>>, <<s, 2, 0>> >>
KeysLayer == <<L(1, 1), L(2, 2), L(3, 3), L(4, 4), L(5, 5), << <<5, 2, 0>> >>, K(6), K(3)>>
SceneLayer == [keys : {KeysLayer}, pre : {<<1>>, <<1, 8>>, <<1, 2>>, <<1, 2, 3>>, <<1, 2, 3, 4>>},
               progs : {<< <<I(2)>>, <<I(3)>> >>, << <<I(2)>>, <<G(1)>> >>, << <<I(2), I(3)>>, <<G(1)>> >>, << <<I(4)>>, <<I(5)>> >>,
                        << <<I(1)>>, <<I(5)>> >>, << <<I(7)>>, <<I(2)>> >>, << <<I(8), I(6)>>, <<I(1)>> >>, << <<I(2)>>, <<I(2)>> >>}]
\* two layers at once
D(s, r1, r2) == << <<5, Suf, r1>>, <<6, Suf, r2>>, <<s, 2, 0>> >>
KeysDeep == <<D(1, 11, 21), D(2, 12, 22), D(3, 13, 23), L(1, 1), << <<5, Suf, 14>>, <<6, 2, 0>> >> >>
SceneTwig == [keys : {KeysDeep}, pre : {<<1>>, <<4>>, <<1, 4>>},
              progs : {<< <<I(2)>>, <<I(3)>> >>, << <<I(2)>>, <<G(1)>> >>, << <<I(2), I(5)>>, <<G(1)>> >>, << <<I(5)>>, <<I(2)>> >>}]
\* several keys of one slice, next to others (W = 3)
KeysMix == <<K(2), << <<5, 2, 0>> >>, L(1, 1), L(2, 2), K(3), K(4), K(6), K(7)>>
SceneMix == [keys : {KeysMix}, pre : {<<1, 2, 5>>, <<1, 3, 7>>, <<2, 3, 5>>, <<1, 2, 5, 7, 8>>},
             progs : {<< <<I(6)>>, <<I(3)>> >>, << <<I(8)>>, <<I(4)>> >>, << <<I(4)>>, <<I(1)>>, <<G(3)>> >>, << <<I(7)>>, <<I(4)>>, <<G(2)>> >>}]
SceneBase == SceneFlat \cup SceneLayer \cup SceneTwig
\* three threads in a layer
SceneGrow == [keys : {KeysLayer}, pre : {<<1, 8>>, <<1, 2>>, <<1, 2, 3>>},
              progs : {<< <<I(2)>>, <<I(3)>>, <<G(1)>> >>, << <<I(4)>>, <<I(5)>>, <<I(3)>> >>, << <<I(4)>>, <<I(5), I(3)>>, <<G(2)>> >>, << <<I(2)>>, <<I(4)>>, <<I(7)>> >>}]
\* many splits of one leaf under those who are on their way there
SceneChase == [keys : {KeysFlat}, pre : {<<1, 2>>, <<1, 9>>, <<2, 4, 6>>},
               progs : {<< <<I(3), I(4), I(5)>>, <<G(9)>>, <<I(7)>> >>, << <<I(8), I(7), I(6)>>, <<I(9)>>, <<G(2)>> >>,
                        << <<I(3), I(5), I(7)>>, <<I(8), I(9)>> >>, << <<I(3), I(5)>>, <<I(7), I(8)>>, <<I(9)>> >>}]
=============================================================================
