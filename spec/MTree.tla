------------------------------- MODULE MTree -------------------------------
(* The legal transitions of the tree, one per release of a node's lock, and    *)
(* what a search finds in a tree.  The detailed model of the algorithm          *)
(* (MTreeMC) is checked to make only these transitions; recorded executions of   *)
(* the code (MTreeTrace) are accepted only if they do.                           *)
(*                                                                            *)
(* A key is a sequence of chunks <<slice, kind, suffix>>, one per layer it may   *)
(* be found in.  A tree is a function from node names to nodes (module Tree).    *)
EXTENDS Tree, TLC

NotFound == 0
Broken == -2

\* the top of a layer; a link may lead to a node that has got parents since
RECURSIVE Climb(_, _, _)
Climb(f, x, fuel) == IF fuel = 0 \/ x \notin DOMAIN f THEN -1
                     ELSE IF f[x].par = 0 \/ f[x].par \notin DOMAIN f THEN x ELSE Climb(f, f[x].par, fuel - 1)

RECURSIVE Find(_, _, _, _, _)
Find(f, a, key, d, fuel) ==
    IF fuel = 0 \/ a \notin DOMAIN f \/ d > Len(key) THEN Broken
    ELSE LET n == f[a]   c == key[d] IN
         IF ~IsLeaf(n) THEN Find(f, ChildFor(n, c[1]), key, d, fuel - 1)
         ELSE IF n.next \in DOMAIN f /\ f[n.next].bound <= c[1] THEN Find(f, n.next, key, d, fuel - 1)
         ELSE LET p == HitPos(n, c[1], c[2]) IN
              IF p = 0 THEN NotFound
              ELSE LET e == n.ents[p] IN
                   IF Kind(e) = Lay THEN Find(f, Climb(f, Val(e), 20), key, d + 1, fuel - 1)
                   ELSE IF Kind(e) = Suf /\ Sfx(e) # c[3] THEN NotFound
                   ELSE Val(e)
\* Whoever splits a leaf releases the right part before the left one.  From then on others can
\* reach the right part through the link, and change it: a search in the left part follows.
\* own: node -> holder, 0: nobody
Follow(f, own) ==
    [x \in DOMAIN f |->
        IF own[x] = 0 \/ ~IsLeaf(f[x]) THEN f[x]
        ELSE LET S == {r \in DOMAIN f : IsLeaf(f[r]) /\ f[r].prev = x /\ r # f[x].next /\ own[r] # own[x]} IN
             IF S = {} THEN f[x]
             ELSE LET r == CHOOSE y \in S : TRUE IN
                  [f[x] EXCEPT !.next = r, !.ents = SelectSeq(@, LAMBDA e : Slice(e) < f[r].bound)]]
Finds(f, r, keys, m) == \A k \in DOMAIN m : Find(f, r, keys[k], 1, 400) = m[k]

\* the keys below a fresh layer, as suffix and value; `slices` and `sufs` say which bytes
\* a slice and a suffix stand for
RECURSIVE Below(_, _, _, _, _)
Below(f, a, prefix, slices, sufs) ==
    IF a \notin DOMAIN f \/ Len(prefix) > 300 THEN {<<prefix, Broken>>}
    ELSE UNION {LET s == prefix \o slices[Slice(e)] IN
                IF Kind(e) = Lay THEN Below(f, Val(e), s, slices, sufs)
                ELSE IF Kind(e) = Suf THEN {<<s \o sufs[Sfx(e)], Val(e)>>}
                ELSE {<<prefix \o SubSeq(slices[Slice(e)], 1, Kind(e)), Val(e)>>}
                : e \in Range(f[a].ents)}

Same(a, b) == IF IsLeaf(a) THEN IsLeaf(b) /\ a.ents = b.ents /\ a.next = b.next /\ a.bound = b.bound
              ELSE ~IsLeaf(b) /\ a.keys = b.keys /\ a.kids = b.kids /\ a.h = b.h
NodeShape(n, W, IW) == IF IsLeaf(n) THEN Len(n.ents) <= W /\ Sorted(n.ents)
                       ELSE Len(n.keys) \in 1..IW /\ Len(n.kids) = Len(n.keys) + 1 /\ Increasing(n.keys)

-----------------------------------------------------------------------------
(* An insert of `val` for `key` takes effect with the release of a leaf.  old is *)
(* the value the key has had (0: none).                                         *)

\* the bound of a leaf is that of its first slot; the leftmost leaf has none to keep
BoundKept(pre, post) == pre.prev = 0 \/ pre.bound = post.bound

Adds(pre, post, key, val, old) ==
    /\ old = 0
    /\ pre.next = post.next /\ BoundKept(pre, post)
    /\ \E d \in 1..Len(key) :
        LET c == key[d]   e == <<c[1], c[2], c[3], val>>
        IN  CanAdd(pre.ents, e) /\ \E p \in EntPositions(pre.ents, e) : post.ents = InsertAtPos(pre.ents, p, e)
Replaces(pre, post, key, val, old) ==
    /\ old # 0
    /\ pre.next = post.next /\ pre.bound = post.bound
    /\ \E d \in 1..Len(key) :
        LET c == key[d]   e == <<c[1], c[2], c[3], old>>
        IN  \E i \in 1..Len(pre.ents) : pre.ents[i] = e /\ post.ents = Replace(pre.ents, i, val)
\* f: the nodes that came into sight
Pushes(pre, post, key, val, old, f, slices, sufs) ==
    /\ old = 0
    /\ pre.next = post.next /\ pre.bound = post.bound
    /\ Len(pre.ents) = Len(post.ents)
    /\ \E d \in 1..Len(key) :
        LET c == key[d]
        IN  \E i \in 1..Len(pre.ents) :
              LET was == pre.ents[i]   new == post.ents[i] IN
              /\ Slice(was) = c[1] /\ Kind(was) = Suf /\ c[2] = Suf /\ Sfx(was) # c[3]
              /\ Kind(new) = Lay /\ post.ents = ToLayer(pre.ents, i, Val(new))
              /\ Val(new) \in DOMAIN f
              /\ Below(f, Val(new), <<>>, slices, sufs) = {<<sufs[Sfx(was)], Val(was)>>, <<sufs[c[3]], val>>}
              /\ \A x \in DOMAIN f : IsLeaf(f[x]) /\ f[x].par = 0 /\ f[x].prev = 0 /\ f[x].next = 0 /\ Len(f[x].ents) \in 1..2

-----------------------------------------------------------------------------
(* Splits.  f: the nodes this thread made in the running call, as they were born. *)
(* A split is a triple <<left, separator, right>>.                               *)

\* leaf x gives up its upper entries to the leaf that is linked next
Parts(x, pre, post, f) ==
    /\ post.next \in DOMAIN f /\ IsLeaf(f[post.next])
    /\ LET r == f[post.next] IN
       /\ r.next = pre.next /\ r.prev = x
       /\ Len(r.ents) \in 1..Len(pre.ents)
       /\ LET p == Len(pre.ents) - Len(r.ents) IN
          /\ post.ents = Lower(pre.ents, p) /\ r.ents = Upper(pre.ents, p)
          /\ p > 0 => Slice(pre.ents[p]) < Slice(pre.ents[p + 1])
       /\ r.bound = Slice(r.ents[1])
       /\ BoundKept(pre, post)
PartTriple(x, post, f) == <<x, f[post.next].bound, post.next>>

\* an interior node gets one more child, next to the child that is being split
NewKid(pre, kids) == LET P == {p \in 1..Len(kids) : kids[p] \notin Range(pre.kids)}
                     IN  IF P = {} THEN 1 ELSE CHOOSE p \in P : TRUE
ChildTriple(pre, post) == LET p == NewKid(pre, post.kids)
                          IN  IF p = 1 THEN <<0, 0, 0>> ELSE <<post.kids[p - 1], post.keys[p - 1], post.kids[p]>>
GetsChild(pre, post, f) ==
    /\ post.h = pre.h
    /\ Len(post.kids) = Len(pre.kids) + 1
    /\ LET p == NewKid(pre, post.kids)
           tr == ChildTriple(pre, post) IN
       /\ p > 1 /\ post.kids[p - 1] \in Range(pre.kids)
       /\ post.kids[p] \in DOMAIN f
       /\ AddChild(pre, tr[1], tr[2], tr[3]).kids = post.kids
       /\ AddChild(pre, tr[1], tr[2], tr[3]).keys = post.keys

\* a full interior node gets one more child (one of the splits in `due`) and gives up its
\* upper half to one of f; the pairs of split and new node for which that is so
Halves(pre, post, f, due) ==
    {y \in due \X {x \in DOMAIN f : ~IsLeaf(f[x]) /\ f[x].h = pre.h} :
        LET tr == y[1]   r == y[2] IN
        /\ post.h = pre.h
        /\ tr[1] \in Range(pre.kids) /\ tr[3] \notin Range(pre.kids)
        /\ LET full == AddChild(pre, tr[1], tr[2], tr[3])
               m == Len(post.kids)
           IN  /\ m < Len(full.kids)
               /\ InLower(full, m).keys = post.keys /\ InLower(full, m).kids = post.kids
               /\ InUpper(full, m).keys = f[r].keys /\ InUpper(full, m).kids = f[r].kids}
HalfTriple(x, pre, post, y) ==
    LET full == AddChild(pre, y[1][1], y[1][2], y[1][3]) IN <<x, full.keys[Len(post.kids)], y[2]>>

\* a new top n of the tree or of a layer: over a node without parent and its new sibling
TopOver(n, ns, f) ==
    /\ n.par = 0 /\ Len(n.kids) = 2 /\ Len(n.keys) = 1
    /\ n.kids[1] \in DOMAIN ns /\ ns[n.kids[1]].par = 0
    /\ n.kids[2] \in DOMAIN f
    /\ n.h = (IF IsLeaf(ns[n.kids[1]]) THEN 0 ELSE ns[n.kids[1]].h + 1)

\* the arrival of nodes changes the links of others: the children of interior nodes get a
\* parent, the right neighbour of a leaf a left neighbour
Arrive(f, born) ==
    LET up(c) == {b \in DOMAIN born : ~IsLeaf(born[b]) /\ c \in Range(born[b].kids)}
        left(c) == {b \in DOMAIN born : IsLeaf(born[b]) /\ born[b].next = c /\ born[b].next # 0}
    IN  [x \in DOMAIN f |->
            LET n == f[x]
                p == IF up(x) # {} THEN CHOOSE b \in up(x) : TRUE ELSE n.par
            IN  IF ~IsLeaf(n) THEN [n EXCEPT !.par = p]
                ELSE [n EXCEPT !.par = p, !.prev = IF left(x) # {} THEN CHOOSE b \in left(x) : TRUE ELSE @]]
=============================================================================
