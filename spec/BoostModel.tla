---------------------------- MODULE BoostModel ----------------------------
(* The library walks the nodes of a tree once in the order of their numbers, *)
(* handing depth, parent and gain down to the two children.  For every tree  *)
(* in which parents have smaller numbers than their children (every          *)
(* numbering by creation), with every assignment of gains, the pass computes *)
(* depths and interactions as defined.                                       *)
EXTENDS ForestModel
CONSTANTS Gains
VARIABLE g
BInit == Init /\ g = <<0>>
BNext == /\ Len(t.f) < 2 * MaxSplits + 1
         /\ \E x \in Nodes(t), v \in 1..F, k \in Gains :
              IsLeaf(t, x) /\ Split(x, v) /\ g' = Append(Append([g EXCEPT ![x] = k], 0), 0)
RECURSIVE Pass(_, _, _, _)
\* state of the pass: depths, and the set of <<parent, child>> nodes flagged as interactions
Pass(i, d, P, I) ==
  IF i > Len(t.f) THEN [d |-> d, P |-> P, I |-> I]
  ELSE IF IsLeaf(t, i) THEN Pass(i + 1, d, P, I)
  ELSE LET d0 == IF i = 1 THEN [d EXCEPT ![1] = 0] ELSE d
           ch == {y \in {t.l[i], t.r[i]} : ~IsLeaf(t, y)}
       IN Pass(i + 1, [y \in Nodes(t) |-> IF y \in ch THEN d0[i] + 1 ELSE d0[y]],
               P \cup {<<i, y>> : y \in ch},
               I \cup {<<i, y>> : y \in {z \in ch : g[i] < g[z] /\ t.f[i] # t.f[z]}})
PassOK == LET r == Pass(1, [x \in Nodes(t) |-> -1], {}, {})
              D == Depths(t)
              below == {<<p, x>> \in Nodes(t) \X Nodes(t) : ~IsLeaf(t, p) /\ ~IsLeaf(t, x) /\ (t.l[p] = x \/ t.r[p] = x)}
          IN /\ \A x \in Nodes(t) : ~IsLeaf(t, x) => r.d[x] = D[x]
             /\ r.P = below
             /\ r.I = {q \in below : g[q[1]] < g[q[2]] /\ t.f[q[1]] # t.f[q[2]]}
             /\ \A x \in Nodes(t) : (~IsLeaf(t, x) /\ x # 1) = (\E p \in Nodes(t) : <<p, x>> \in below)
=============================================================================
