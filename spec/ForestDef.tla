----------------------------- MODULE ForestDef -----------------------------
(* Decision trees and the definition of (conditional) minimal depth on them. *)
(* A tree is a record of sequences over its nodes 1..N (1 is the root):      *)
(*   l, r  left / right child (0 for a leaf),   f  split feature (0: leaf)   *)
(* Nothing below depends on how the nodes are numbered.                      *)
EXTENDS Num

Nodes(t) == 1..Len(t.f)
IsLeaf(t, x) == t.f[x] = 0
RECURSIVE Sub(_, _)
Sub(t, x) == IF IsLeaf(t, x) THEN {x} ELSE {x} \cup Sub(t, t.l[x]) \cup Sub(t, t.r[x])
RECURSIVE DepthsR(_, _, _)
DepthsR(t, x, d) == IF IsLeaf(t, x) THEN (x :> d)
                    ELSE (x :> d) @@ DepthsR(t, t.l[x], d + 1) @@ DepthsR(t, t.r[x], d + 1)
Depths(t) == DepthsR(t, 1, 0)
RECURSIVE LastLeaf(_, _)
LastLeaf(t, x) == IF IsLeaf(t, x) THEN x ELSE LastLeaf(t, t.r[x])

SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
Splits(t, v) == {x \in Nodes(t) : t.f[x] = v}
Used(t) == {t.f[x] : x \in Nodes(t)} \ {0}
\* the shallowest nodes splitting on r
Top(t, d, r) == LET S == Splits(t, r)
                    m == SetMin({d[x] : x \in S})
                IN {x \in S : d[x] = m}
\* one tree's value for (r, v), both used in the tree
NodeVal(t, d, x, v) ==
  LET below == {y \in Sub(t, x) \ {x} : t.f[y] = v}
  IN IF below # {} THEN SetMin({d[y] : y \in below}) - d[x] - 1
     ELSE d[LastLeaf(t, x)] - d[x]
CMD(t, d, r, v) == SetMin({NodeVal(t, d, x, v) : x \in Top(t, d, r)})
Occurs(t, d, r, v) == \E x \in Top(t, d, r) : \E y \in Sub(t, x) \ {x} : t.f[y] = v
MinDepth(t, d, v) == SetMin({d[x] : x \in Splits(t, v)})
=============================================================================
