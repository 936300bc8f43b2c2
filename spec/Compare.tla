------------------------------ MODULE Compare ------------------------------
(* Recorded comparisons of two fitted methods.  case.tab[k] are the two pair *)
(* tables; an event has for every unordered pair the looked-up values in     *)
(* both methods and integer codes that order them exactly.                   *)
EXTENDS CompareDef, IOUtils, Json
VARIABLES i, pos, st, done

Asc(case, k) == case.asc[k] = 1
\* pairs valued in both tables, as the specification sees it
Valued(case, k, f, g) == LET R == PairRows(case.tab[k], f, g) IN \E r \in R : IsFinite(case.tab[k][r][3])
PairSet(case) == {p \in (1..case.nf) \X (1..case.nf) : p[1] <= p[2] /\ Valued(case, 1, p[1], p[2]) /\ Valued(case, 2, p[1], p[2])}
ValueOK(case, k, f, g, o) == LookOK(case.cls[k], Asc(case, k), case.tab[k], f, g, o)

\* event.prs: sequence of [f, g, value1, value2, code1, code2] of the common pairs
PrsOK(case, e) == /\ {<<e.prs[j][1], e.prs[j][2]>> : j \in 1..Len(e.prs)} = PairSet(case)
                  /\ Len(e.prs) = Cardinality(PairSet(case))
                  /\ \A j \in 1..Len(e.prs) : /\ ValueOK(case, 1, e.prs[j][1], e.prs[j][2], e.prs[j][3])
                                              /\ ValueOK(case, 2, e.prs[j][1], e.prs[j][2], e.prs[j][4])
CorrExp(case, e, kind) == LET u == [j \in 1..Len(e.prs) |-> e.prs[j][5]]
                              v == [j \in 1..Len(e.prs) |-> e.prs[j][6]]
                          IN IF e.swap THEN Corr(kind, v, Asc(case, 2), u, Asc(case, 1)) ELSE Corr(kind, u, Asc(case, 1), v, Asc(case, 2))
CKinds == <<"pearson", "kendall", "spearman">>
BoxClose(o, w) == IF IsFinite(o) /\ IsFinite(w)        \* three decimals
                  THEN NLeq(ZSub(ObsZ(o), ObsZ(w)).m, NFromInt(60000)) ELSE IsFinite(o) = IsFinite(w)
\* a bijection between points and common pairs
PtX(e, j) == IF e.swap THEN e.prs[j][4] ELSE e.prs[j][3]
PtY(e, j) == IF e.swap THEN e.prs[j][3] ELSE e.prs[j][4]
PtAt(e, p, j) == NearObs(p[1], PtX(e, j)) /\ NearObs(p[2], PtY(e, j))
PointsOK(e) == /\ Len(e.pts) = Len(e.prs)
               /\ \A q \in 1..Len(e.pts) : Cardinality({k \in 1..Len(e.pts) : NearObs(e.pts[k][1], e.pts[q][1]) /\ NearObs(e.pts[k][2], e.pts[q][2])})
                                         = Cardinality({j \in 1..Len(e.prs) : PtAt(e, e.pts[q], j)})
\* labels: [x, y, f, g] for every pair of names the text can mean
LabelOK(e, l) == \E m \in 1..Len(l.prs) : \E j \in 1..Len(e.prs) :
                   /\ {e.prs[j][1], e.prs[j][2]} = {l.prs[m][1], l.prs[m][2]} /\ PtAt(e, l.at, j)
\* as many labels as asked for, on pairs that no unlabelled one exceeds in strength (in one of the two methods)
LabelledPair(e, j) == \E l \in 1..Len(e.labels) : \E m \in 1..Len(e.labels[l].prs) : {e.prs[j][1], e.prs[j][2]} = {e.labels[l].prs[m][1], e.labels[l].prs[m][2]}
StrongFirst(case, e, k) == \A a, b \in 1..Len(e.prs) :
    (LabelledPair(e, a) /\ ~LabelledPair(e, b)) => IF Asc(case, k) THEN e.prs[a][4 + k] <= e.prs[b][4 + k] ELSE e.prs[a][4 + k] >= e.prs[b][4 + k]
LabelsOK(case, e) == /\ Len(e.labels) = Min({e.nlab, Len(e.prs)})
                     /\ e.strict => (StrongFirst(case, e, 1) \/ StrongFirst(case, e, 2))
Err(case, e) ==
  IF e.err # "" THEN "error " \o e.err
  ELSE IF ~PrsOK(case, e) THEN "looked-up values of the compared methods"
  ELSE IF e.hascorr /\ ~e.vague /\ \E k \in 1..3 : ~CorrOK(e.corr[k], TLCEval(CorrExp(case, e, CKinds[k]))) THEN "rank correlation"
  ELSE IF e.plotted /\ ~PointsOK(e) THEN "points of the comparison plot"
  ELSE IF e.plotted /\ \E l \in 1..Len(e.labels) : ~LabelOK(e, e.labels[l]) THEN "label of a point"
  ELSE IF e.plotted /\ ~LabelsOK(case, e) THEN "which points are labelled"
  ELSE IF e.plotted /\ (e.xinv # (IF e.swap THEN case.asc[2] ELSE case.asc[1]) \/ e.yinv # (IF e.swap THEN case.asc[1] ELSE case.asc[2])) THEN "direction of an axis"
  ELSE IF e.axes = 1 THEN "axis labelled with the other method"
  ELSE IF e.box /\ \E k \in 1..3 : ~BoxClose(e.boxv[k], e.corr[k]) THEN "correlation box"
  ELSE ""
Start(case) == 0
Step(case, s, e) == [err |-> Err(case, e), st |-> s]
Cases == ndJsonDeserialize(IOEnv.VCASES)
INSTANCE TraceBase
=============================================================================
