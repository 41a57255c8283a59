-------------------------------- MODULE Owner --------------------------------
(* Who may give a node back.  node[n]: <<"own", kind>> while the allocator has    *)
(* it, <<"wait", guards>> after it was retired while those guards were open,      *)
(* <<"gone">> afterwards.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Own(k) == <<"own", k>>
Wait(gs) == <<"wait", gs>>
Gone == <<"gone">>
\* end: the allocator is being torn down or dropped
MayGo(s, open, end) == CASE s[1] = "own" -> end
                         [] s[1] = "wait" -> s[2] \cap open = {}
                         [] OTHER -> FALSE
Owned(node, k) == Cardinality({n \in DOMAIN node : node[n] = Own(k)})
=============================================================================
