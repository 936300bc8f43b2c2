----------------------------- MODULE BoostDef -----------------------------
(* Boosted trees: split nodes carry a gain and a cover (logged numbers, see  *)
(* Num).  The split score tables are defined by the nodes alone.             *)
(*   t.l, t.r, t.f  shape as in ForestDef;  t.g, t.c  gain and cover         *)
EXTENDS ForestDef

Inner(t) == {x \in Nodes(t) : ~IsLeaf(t, x)}
Parent(t, x) == CHOOSE p \in Inner(t) : t.l[p] = x \/ t.r[p] = x
\* all split nodes of all trees: <<tree, node>>
AllInner(ts) == UNION {{<<k, x>> : x \in Inner(ts[k])} : k \in 1..Len(ts)}
\* records of the split nodes that are children of split nodes
Rec(ts, D, k, x) == LET p == IF x = 1 THEN 0 ELSE Parent(ts[k], x)
                    IN [k |-> k, x |-> x, f |-> ts[k].f[x], g |-> ObsZ(ts[k].g[x]), c |-> ObsZ(ts[k].c[x]), d |-> D[k][x],
                        pf |-> IF p = 0 THEN 0 ELSE ts[k].f[p],
                        ins |-> p # 0 /\ ts[k].f[p] # ts[k].f[x] /\ ZCmp(ObsZ(ts[k].g[p]), ObsZ(ts[k].g[x])) < 0]
Recs(ts, D) == SetToSeq({Rec(ts, D, kx[1], kx[2]) : kx \in AllInner(ts)})

E8(k) == NShift(NFromInt(k), SCALE)
\* the metric m over the sequence R of records (gains and covers are scaled by 10^8)
GSum(R) == ZSumSeq([j \in 1..Len(R) |-> R[j].g])
CSum(R) == ZSumSeq([j \in 1..Len(R) |-> R[j].c])
DSum(R) == SumSeq([j \in 1..Len(R) |-> R[j].d])
Metric(o, m, R) ==
  CASE m = "sum_gain" -> Near(o, GSum(R), E8(1))
    [] m = "mean_gain" -> Near(o, GSum(R), E8(Len(R)))
    [] m = "sum_cover" -> Near(o, CSum(R), E8(1))
    [] m = "mean_cover" -> Near(o, CSum(R), E8(Len(R)))
    [] m = "mean_depth" -> NearInt(o, DSum(R), Len(R))
    [] m = "mean_weighted_depth" ->
         Near(o, ZSumSeq([j \in 1..Len(R) |-> ZMul(Z(R[j].d), R[j].g)]), GSum(R).m)
=============================================================================
