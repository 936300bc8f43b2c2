---------------------------- MODULE ForestModel ----------------------------
(* Trees grow by splitting any leaf on any feature, so every binary tree     *)
(* with every numbering by creation time is reached.  The interval algorithm *)
(* the library uses (nodes of a subtree are an interval of the preorder      *)
(* numbering) is checked against the definition on every one of them.        *)
EXTENDS ForestDef
CONSTANTS F, MaxSplits
VARIABLE t
Init == t = [l |-> <<0>>, r |-> <<0>>, f |-> <<0>>]
Split(x, v) == t' = [l |-> Append(Append([t.l EXCEPT ![x] = Len(t.f) + 1], 0), 0),
                     r |-> Append(Append([t.r EXCEPT ![x] = Len(t.f) + 2], 0), 0),
                     f |-> Append(Append([t.f EXCEPT ![x] = v], 0), 0)]
Next == /\ Len(t.f) < 2 * MaxSplits + 1
        /\ \E x \in Nodes(t), v \in 1..F : IsLeaf(t, x) /\ Split(x, v)

\* preorder renumbering
RECURSIVE Pre(_, _)
Pre(tt, x) == IF IsLeaf(tt, x) THEN <<x>> ELSE <<x>> \o Pre(tt, tt.l[x]) \o Pre(tt, tt.r[x])
Renumber(tt) ==
  LET o == Pre(tt, 1)
      inv == [x \in Nodes(tt) |-> CHOOSE k \in 1..Len(o) : o[k] = x]
      m(y) == IF y = 0 THEN 0 ELSE inv[y]
  IN [l |-> [k \in 1..Len(o) |-> m(tt.l[o[k]])], r |-> [k \in 1..Len(o) |-> m(tt.r[o[k]])],
      f |-> [k \in 1..Len(o) |-> tt.f[o[k]]]]
\* the interval algorithm on a numbering
Upper(tt, d, x) == LET S == {y \in Nodes(tt) : y > x /\ d[y] <= d[x]}
                   IN IF S = {} THEN Len(tt.f) ELSE SetMin(S) - 1
AlgNode(tt, d, x, v) ==
  LET u == Upper(tt, d, x)
      below == {y \in (x + 1)..u : tt.f[y] = v}
  IN IF below # {} THEN SetMin({d[y] : y \in below}) - d[x] - 1 ELSE d[u] - d[x]
AlgCMD(tt, d, r, v) == SetMin({AlgNode(tt, d, x, v) : x \in Top(tt, d, r)})

Agree == LET p == Renumber(t)
             dp == Depths(p)
             dt == Depths(t)
         IN \A a, b \in Used(t) : a # b => AlgCMD(p, dp, a, b) = CMD(t, dt, a, b)
\* the subtree of a node is the interval up to Upper
Interval == LET p == Renumber(t)
                dp == Depths(p)
            IN \A x \in Nodes(p) : Sub(p, x) = x..Upper(p, dp, x) /\ LastLeaf(p, x) = Upper(p, dp, x)
\* sanity: values are bounded by the height, zero iff a direct child splits on v
Sane == LET d == Depths(t) IN \A a, b \in Used(t) : a # b =>
          /\ CMD(t, d, a, b) >= 0
          /\ (CMD(t, d, a, b) = 0) = (\E x \in Top(t, d, a) : t.f[t.l[x]] = b \/ t.f[t.r[x]] = b)
=============================================================================
