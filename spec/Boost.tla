------------------------------- MODULE Boost -------------------------------
(* Recorded split score fits and importances on real XGBoost / LightGBM      *)
(* models.                                                                   *)
EXTENDS BoostDef, IOUtils, Json
VARIABLES i, pos, st, done
Has(case, a) == \E j \in 1..Len(case.asp) : case.asp[j] = a
LgbmUnsupported == {"sum_cover", "mean_cover"}

\* tables are ordered by value; undefined values come last
Ordered(vals, asc) == \A j \in 1..(Len(vals) - 1) :
  IF ~IsFinite(vals[j + 1]) THEN TRUE
  ELSE IsFinite(vals[j]) /\ (IF asc THEN ObsLeq(vals[j], vals[j + 1]) ELSE ObsLeq(vals[j + 1], vals[j]))
Filter(R, P(_)) == SelectSeq(R, P)

IMetrics == {"sum_gain", "mean_gain", "sum_cover", "mean_cover", "mean_depth"}
Known(case) == IF case.pkg = "lightgbm" THEN IMetrics \ LgbmUnsupported ELSE IMetrics

\* the table of all metrics: row = [pf, f, v] with v[metric], and v.frequency
FullErr(case, e, Q, want) ==
  LET o == e.full
      of(j) == Filter(Q, LAMBDA r : r.pf = o[j].pf /\ r.f = o[j].f)
  IN IF e.nofull = 1 THEN ""
     ELSE IF Len(o) # Cardinality(want) \/ {<<o[j].pf, o[j].f>> : j \in 1..Len(o)} # want THEN "pairs of the table of all metrics"
     ELSE IF \E j \in 1..Len(o) : \/ \E m \in Known(case) : ~Metric(o[j].v[m], m, of(j))
                                   \/ ~NearInt(o[j].v["frequency"], Len(of(j)), 1)
          THEN "value in the table of all metrics"
     ELSE ""
PairErr(case, e, R) ==
  LET o == e.ovo
      Q == Filter(R, LAMBDA r : IF e.od THEN r.ins ELSE r.pf # 0)
      want == {<<Q[j].pf, Q[j].f>> : j \in 1..Len(Q)}
  IN IF Len(o) # Cardinality(want) \/ {<<o[j][1], o[j][2]>> : j \in 1..Len(o)} # want THEN "pairs of the table"
     ELSE IF \E j \in 1..Len(o) : ~Metric(o[j][3], e.m, Filter(Q, LAMBDA r : r.pf = o[j][1] /\ r.f = o[j][2]))
          THEN "value of a pair (" \o e.m \o ")"
     ELSE IF ~Ordered([j \in 1..Len(o) |-> o[j][3]], e.m = "mean_depth") THEN "order of the table"
     ELSE FullErr(case, e, Q, want)
ImpErr(case, e, R0) ==
  LET o == e.imp
      R == IF e.fs = <<>> THEN R0 ELSE Filter(R0, LAMBDA r : \E j \in 1..Len(e.fs) : e.fs[j] = r.f)
      want == {R[j].f : j \in 1..Len(R)}
      roots == Filter(R, LAMBDA r : r.pf = 0)
      ok(f, v, m) ==
        LET Rf == Filter(R, LAMBDA r : r.f = f)
            Rr == Filter(roots, LAMBDA r : r.f = f)
        IN CASE m = "root_frequency" ->
                  NearInt(v, Len(Rr), 1)
             [] m = "weighted_root_frequency" ->
                  IF Len(Rr) = 0 THEN NearInt(v, 0, 1)
                  ELSE Near(v, ZMul(Z(Len(Rr)), GSum(Rr)), GSum(roots).m)
             [] OTHER -> Metric(v, m, Rf)
  IN IF Len(o) # Cardinality(want) \/ {o[j][1] : j \in 1..Len(o)} # want THEN "features of the importance table"
     ELSE IF \E j \in 1..Len(o) : ~ok(o[j][1], o[j][2], e.im) THEN "importance of a feature (" \o e.im \o ")"
     ELSE IF ~Ordered([j \in 1..Len(o) |-> o[j][2]], e.im \in {"mean_depth", "mean_weighted_depth"})
          THEN "order of the importance table"
     ELSE IF e.noifull = 1 THEN ""
     ELSE LET w == e.ifull
          IN IF Len(w) # Cardinality(want) \/ {w[j].f : j \in 1..Len(w)} # want THEN "features of the table of all importance metrics"
             ELSE IF \E j \in 1..Len(w) : \E m \in Known(case) \cup {"mean_weighted_depth", "root_frequency", "weighted_root_frequency"} :
                       ~ok(w[j].f, w[j].v[m], m) THEN "value in the table of all importance metrics"
             ELSE ""

\* the unified table of the handler: row <<tree, id, left id, right id, feature, gain, cover, depth, leaf>>
Row(o, id) == CHOOSE j \in 1..Len(o) : o[j].id = id
RECURSIVE Iso(_, _, _, _, _, _)
\* the rows reachable from row j are the nodes of t below x, at depth d
Iso(case, o, j, t, x, d) ==
  LET r == o[j]
      ids == {o[k].id : k \in 1..Len(o)}
  IN /\ r.leaf = (IF IsLeaf(t, x) THEN 1 ELSE 0)
     /\ IF case.pkg = "lightgbm" THEN NearInt(r.d, d, 1) ELSE TRUE
     /\ IF case.pkg = "lightgbm" THEN TRUE ELSE Near(r.c, ObsZ(t.c[x]), E8(1))
     /\ IF IsLeaf(t, x) THEN r.f = 0 /\ r.l = 0 /\ r.r = 0
        ELSE /\ r.f = t.f[x] /\ Near(r.g, ObsZ(t.g[x]), E8(1))
             /\ r.l \in ids /\ r.r \in ids
             /\ Iso(case, o, Row(o, r.l), t, t.l[x], d + 1)
             /\ Iso(case, o, Row(o, r.r), t, t.r[x], d + 1)
TableErr(m, e) ==
  LET o == e.uni
      ts == m.trees
  IN IF e.pkg # m.pkg THEN "package of the model"
     ELSE IF Cardinality({o[j].id : j \in 1..Len(o)}) # Len(o) THEN "node identifiers are not unique"
     ELSE IF {o[j].tree : j \in 1..Len(o)} # 1..Len(ts) THEN "trees of the table"
     ELSE LET bad == {k \in 1..Len(ts) :
                LET rows == SelectSeq(o, LAMBDA r : r.tree = k)
                    kids == {rows[j].l : j \in 1..Len(rows)} \cup {rows[j].r : j \in 1..Len(rows)}
                    roots == {j \in 1..Len(rows) : rows[j].id \notin kids}
                IN ~(/\ Len(rows) = Len(ts[k].f) /\ Cardinality(roots) = 1
                     /\ Iso(m, rows, CHOOSE j \in roots : TRUE, ts[k], 1, 0))}
          IN IF bad # {} THEN "nodes of a tree" ELSE ""

(* The state is the model the handler holds (0: none).  Unifying a model     *)
(* replaces it, a model of another package is rejected and changes nothing,  *)
(* and neither do fits and importances ("look").                             *)
Start(case) == 0
Held(case, s, e) == CASE e.kind = "unify" /\ e.mi # 0 -> e.mi [] OTHER -> s
UnifyErr(case, s, e) ==
  LET h == Held(case, s, e)
  IN IF e.kind = "unify" /\ e.mi = 0 /\ e.err # "ModelNotSupportedException"
     THEN "a model of another package is not rejected: " \o e.err
     ELSE IF ~(e.kind = "unify" /\ e.mi = 0) /\ e.err # "" THEN "error " \o e.err
     ELSE IF h = 0 THEN "" ELSE TableErr(case.ms[h], e)
Err(case, s, e) ==
  IF e.kind \in {"unify", "look"} THEN IF Has(case, "C24") THEN UnifyErr(case, s, e) ELSE ""
  ELSE
  LET m == case.ms[IF e.wrap = "handler" THEN s ELSE e.mi]
      rejected == e.kind = "fit" /\ m.pkg = "lightgbm" /\ {e.m, e.im} \cap LgbmUnsupported # {}
  IN IF rejected THEN IF e.err = "MetricNotSupportedException" THEN "" ELSE "unsupported metric is not rejected: " \o e.err
     ELSE IF e.err # "" THEN "error " \o e.err
     ELSE LET D == TLCEval([k \in 1..Len(m.trees) |-> Depths(m.trees[k])])
              R == TLCEval(Recs(m.trees, D))
              a == IF Has(case, "C13") /\ e.kind = "fit" THEN PairErr(m, e, R) ELSE ""
          IN IF a # "" THEN a ELSE IF Has(case, "C14") THEN ImpErr(m, e, R) ELSE ""
Step(case, s, e) == [err |-> Err(case, s, e), st |-> Held(case, s, e)]
Cases == ndJsonDeserialize(IOEnv.VCASES)
INSTANCE TraceBase
=============================================================================
