----------------------------- MODULE MTreeTrace -----------------------------
(* Recorded locked steps of the code, judged against the transitions of the   *)
(* tree.  Recorded are calls and returns, every acquisition and release of a   *)
(* node's lock with the contents of the node at that instant, nodes that come   *)
(* into sight, and changes of the root.  The specification keeps its own tree;   *)
(* a release must change it by one legal transition, and after every event a     *)
(* search in it must find exactly what has been inserted so far.                *)
EXTENDS MTree, TLCExt, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)

VARIABLES
    h, l,
    ns,       \* the tree: node -> contents as of the last release
    owner,    \* node -> thread that holds its lock, 0: nobody
    root,
    fresh,    \* thread -> nodes it made in the running call, as they were born
    splits,   \* thread -> <<left, separator, right>> of splits it made in the running call
    posted,   \* thread -> those that a parent knows
    pend,     \* thread -> running call
    map       \* key -> value
vars == <<h, l, ns, owner, root, fresh, splits, posted, pend, map>>
R == T[h]
Ev == R.ev[l]
Idle0 == [st |-> "idle", key |-> 0, val |-> 0, res |-> 0, seen |-> {}]
None == [x \in {} |-> {}]

NodeFun(s) == [i \in {s[j].id : j \in 1..Len(s)} |-> s[CHOOSE j \in 1..Len(s) : s[j].id = i]]

Init == /\ h \in 1..N /\ l = 1
        /\ ns = NodeFun(T[h].init)
        /\ owner = [i \in DOMAIN NodeFun(T[h].init) |-> 0]
        /\ root = T[h].root
        /\ fresh = [t \in 1..T[h].nt |-> None]
        /\ splits = [t \in 1..T[h].nt |-> {}]
        /\ posted = [t \in 1..T[h].nt |-> {}]
        /\ pend = [t \in 1..T[h].nt |-> Idle0]
        /\ map = [k \in 1..Len(T[h].keys) |-> T[h].vals[k]]

-----------------------------------------------------------------------------
(* One step of the record.                                                    *)

Quiet(n) == n.dirty = 0 /\ n.del = 0 /\ (IsLeaf(n) => n.mark = 0 /\ n.frz = 0)
\* links to the left and upward are written by those who hold the node they lead to
Held(x) == x \in DOMAIN ns /\ owner[x] # 0
Links(a, b) == /\ b.par = a.par \/ Held(a.par)
               /\ IsLeaf(a) => b.prev = a.prev \/ Held(a.prev)
Shape(n) == NodeShape(n, 24, 15)

Call == /\ Ev.e = "call"
        /\ pend[Ev.t] = Idle0
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> IF Ev.op = 1 THEN "ins" ELSE "get", key |-> Ev.key, val |-> Ev.val, res |-> 0,
                                          seen |-> {map[Ev.key]}]]
        /\ UNCHANGED <<ns, owner, root, fresh, splits, posted, map>>
Ret == /\ Ev.e = "ret"
       /\ LET t == Ev.t IN
          /\ IF pend[t].st = "get" THEN Ev.res \in pend[t].seen ELSE pend[t].st = "done" /\ Ev.res = pend[t].res
          /\ \A x \in DOMAIN owner : owner[x] # t
          /\ splits[t] = posted[t]
          /\ pend' = [pend EXCEPT ![t] = Idle0]
          /\ fresh' = [fresh EXCEPT ![t] = None]
          /\ splits' = [splits EXCEPT ![t] = {}]
          /\ posted' = [posted EXCEPT ![t] = {}]
       /\ UNCHANGED <<ns, owner, root, map>>
Lock == /\ Ev.e = "lock"
        /\ LET x == Ev.node.id IN
           /\ x \in DOMAIN ns
           /\ owner[x] = 0
           /\ Ev.node.del = 0
           /\ TRUE = Same(ns[x], Ev.node)
           /\ TRUE = Links(ns[x], Ev.node)
           /\ owner' = [owner EXCEPT ![x] = Ev.t]
        /\ UNCHANGED <<ns, root, fresh, splits, posted, pend, map>>

\* nodes that come into sight, before their first release or already free
Come == {n \in Range(Ev.new) : n.id \notin DOMAIN ns}
NewFun == [i \in {n.id : n \in Come} |-> CHOOSE n \in Come : n.id = i]
\* a new root, of the tree or of a layer, has two children, one of them just split off
IsTop(n) == ~IsLeaf(n) /\ n.lk = 0
TopOK(t, f, n) == TopOver(n, ns, f) /\ owner[n.kids[1]] = t
Posts(new) == {<<n.kids[1], n.keys[1], n.kids[2]>> : n \in {m \in Range(new) : IsTop(m) /\ m.id \notin DOMAIN ns}}

Pd(t) == pend[t]
Key(t) == R.keys[Pd(t).key]
Old(t) == map[Pd(t).key]
Runs(t) == Pd(t).st = "ins"
\* the left part is held, or was let go with its split on record
Due(t, tr) == (Held(tr[1]) /\ owner[tr[1]] = t) \/ tr \in splits[t]

Commit(t, res) ==
    /\ map' = [map EXCEPT ![Pd(t).key] = Pd(t).val]
    /\ pend' = [u \in DOMAIN pend |->
                  IF u = t THEN [pend[t] EXCEPT !.st = "done", !.res = res]
                  ELSE IF pend[u].st = "get" /\ pend[u].key = Pd(t).key THEN [pend[u] EXCEPT !.seen = @ \cup {Pd(t).val}]
                  ELSE pend[u]]

Unlock ==
    /\ Ev.e = "unlock"
    /\ LET t == Ev.t   x == Ev.node.id   post == Ev.node
           known == x \in DOMAIN ns
           pre == ns[x]
           new == NewFun
           born == IF known THEN new ELSE new @@ (x :> post)
           f == fresh[t] @@ born
           tops == Posts(Ev.new)
           hv == Halves(pre, post, f, splits[t] \ posted[t])
       IN
       /\ post.lk = 0
       /\ TRUE = Quiet(post)
       /\ TRUE = Shape(post)
       /\ known => owner[x] = t
       /\ TRUE = \A n \in Come : Shape(n) /\ (n.lk = 0 => Quiet(n) /\ n.root = (IF n.par = 0 THEN 1 ELSE 0)) /\ (IsTop(n) => TopOK(t, f, n))
       /\ known => x \in DOMAIN fresh[t] \/ (TRUE = Links(pre, post))
       /\ fresh' = [fresh EXCEPT ![t] = f]
       /\ CASE ~known \/ (TRUE = Same(pre, post)) ->
                 UNCHANGED <<map, pend, splits>> /\ posted' = [posted EXCEPT ![t] = @ \cup tops]
            [] known /\ IsLeaf(pre) /\ Runs(t) /\ (TRUE = Adds(pre, post, Key(t), Pd(t).val, Old(t))) ->
                 Commit(t, 0) /\ UNCHANGED <<splits, posted>>
            [] known /\ IsLeaf(pre) /\ Runs(t) /\ (TRUE = Replaces(pre, post, Key(t), Pd(t).val, Old(t))) ->
                 Commit(t, map[Pd(t).key]) /\ UNCHANGED <<splits, posted>>
            [] known /\ IsLeaf(pre) /\ Runs(t) /\ (TRUE = Pushes(pre, post, Key(t), Pd(t).val, Old(t), new, R.slices, R.sufs)) ->
                 Commit(t, 0) /\ UNCHANGED <<splits, posted>>
            [] known /\ IsLeaf(pre) /\ (TRUE = Parts(x, pre, post, f)) ->
                 /\ UNCHANGED <<map, pend>>
                 /\ splits' = [splits EXCEPT ![t] = @ \cup {PartTriple(x, post, f)}]
                 /\ posted' = [posted EXCEPT ![t] = @ \cup tops]
            [] known /\ ~IsLeaf(pre) /\ ~IsLeaf(post) /\ (TRUE = GetsChild(pre, post, f)) /\ Due(t, ChildTriple(pre, post)) ->
                 /\ UNCHANGED <<map, pend, splits>>
                 /\ posted' = [posted EXCEPT ![t] = @ \cup tops \cup {ChildTriple(pre, post)}]
            [] known /\ ~IsLeaf(pre) /\ ~IsLeaf(post) /\ hv # {} ->
                 LET v == CHOOSE y \in hv : TRUE IN
                 /\ UNCHANGED <<map, pend>>
                 /\ splits' = [splits EXCEPT ![t] = @ \cup {HalfTriple(x, pre, post, v)}]
                 /\ posted' = [posted EXCEPT ![t] = @ \cup tops \cup {v[1]}]
            [] OTHER -> FALSE
       /\ LET mine == IF known THEN [post EXCEPT !.par = pre.par] ELSE post
              mine2 == IF known /\ IsLeaf(post) THEN [mine EXCEPT !.prev = pre.prev] ELSE mine
              \* a node that gets children becomes their parent
              f2 == Arrive((x :> mine2) @@ (new @@ ns), (x :> mine2) @@ new)
              own2 == [y \in DOMAIN f2 |-> IF y = x THEN 0
                                           ELSE IF y \in DOMAIN new THEN (IF new[y].lk = 1 THEN t ELSE 0) ELSE owner[y]]
          IN  /\ ns' = f2
              /\ owner' = own2
              /\ TRUE = Finds(Follow(f2, own2), root, R.keys, map')
       /\ UNCHANGED root

Root ==
    /\ Ev.e = "root"
    /\ LET t == Ev.t   new == NewFun   f == fresh[t] @@ new
           f2 == Arrive(new @@ ns, new)
           own2 == [y \in DOMAIN f2 |-> IF y \in DOMAIN new THEN (IF new[y].lk = 1 THEN t ELSE 0) ELSE owner[y]]
       IN
       /\ TRUE = \A n \in Come : Shape(n) /\ (n.lk = 0 => Quiet(n) /\ n.root = (IF n.par = 0 THEN 1 ELSE 0)) /\ (IsTop(n) => TopOK(t, f, n))
       /\ Ev.top \in DOMAIN f2
       /\ Ev.top # root => Ev.top \in DOMAIN new /\ f2[Ev.top].kids[1] = root
       /\ fresh' = [fresh EXCEPT ![t] = f]
       /\ posted' = [posted EXCEPT ![t] = @ \cup Posts(Ev.new)]
       /\ ns' = f2
       /\ owner' = own2
       /\ root' = Ev.top
       /\ TRUE = Finds(Follow(f2, own2), Ev.top, R.keys, map)
    /\ UNCHANGED <<splits, pend, map>>

Step == /\ l <= Len(R.ev)
        /\ Call \/ Ret \/ Lock \/ Unlock \/ Root
        /\ l' = l + 1 /\ UNCHANGED h
\* in the end the tree of the code is the tree of the specification
Final == LET f == NodeFun(R.fin) IN
    /\ R.finroot = root
    /\ DOMAIN f = DOMAIN ns
    /\ \A x \in DOMAIN f :
        /\ Same(ns[x], f[x]) /\ f[x].lk = 0 /\ Quiet(f[x])
        /\ ns[x].par = f[x].par
        /\ IsLeaf(f[x]) => ns[x].prev = f[x].prev
        /\ f[x].root = (IF f[x].par = 0 THEN 1 ELSE 0)
End == /\ l = Len(R.ev) + 1
       /\ \A t \in DOMAIN pend : pend[t] = Idle0
       /\ TRUE = Final
       /\ l' = l + 1 /\ UNCHANGED <<h, ns, owner, root, fresh, splits, posted, pend, map>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars

Track == IF TLCGetOrDefault(h, 0) < l THEN TLCSet(h, l) ELSE TRUE
Done(i) == TLCGetOrDefault(i, 0) = Len(T[i].ev) + 2
Accepted == TLCGet("stats").diameter >= 0 /\ LET bad == {i \in 1..N : ~Done(i)}
            IN  /\ PrintT(<<"CHECKED", N>>)
                /\ \A i \in bad : PrintT(<<"REJECTED", i, TLCGetOrDefault(i, 0)>>)
                /\ bad = {}
=============================================================================
