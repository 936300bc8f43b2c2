------------------------------ MODULE PlotDef ------------------------------
(* What the plots of a fitted method may show, as a function of its tables.  *)
(* ovo: sequence of <<f, g, value>> strongest first, code[i] integers that   *)
(* order the values exactly; imp, ova: sequences of <<f, value>>.            *)
EXTENDS LifeDef

Undirected(c) == c # "C"
Head_(t, k) == SubSeq(t, 1, Min2(k, Len(t)))
\* a bar for an undefined value has no length
SameLength(o, v) == IF IsFinite(v) THEN NearObs(o, v) ELSE ~IsFinite(o) \/ o[1] = 0
\* bars from top to bottom: <<f, g, length>> (g = 0 for one-vs-all)
OvoBarsOK(ovo, k, bars) == /\ Len(bars) = Len(Head_(ovo, k))
                           /\ \A j \in 1..Len(bars) : bars[j][1] = ovo[j][1] /\ bars[j][2] = ovo[j][2] /\ SameLength(bars[j][3], ovo[j][3])
OvaBarsOK(ova, k, bars) == /\ Len(bars) = Len(Head_(ova, k))
                           /\ \A j \in 1..Len(bars) : bars[j][1] = ova[j][1] /\ bars[j][2] = 0 /\ SameLength(bars[j][3], ova[j][2])

(* ---- heatmap: cells <<row, column, value, annotation>> *)
RowsAt(ovo, f, g) == {i \in 1..Len(ovo) : ovo[i][1] = f /\ ovo[i][2] = g /\ IsFinite(ovo[i][3])}
ImpAt(imp, f)     == {i \in 1..Len(imp) : imp[i][1] = f /\ IsFinite(imp[i][2])}
CellRows(c, ovo, f, g) == LET own == RowsAt(ovo, f, g)
                          IN IF own = {} /\ Undirected(c) THEN RowsAt(ovo, g, f) ELSE own
CellOK(c, ovo, imp, f, g, o) ==
  IF f = g THEN \E i \in ImpAt(imp, f) : NearObs(o, imp[i][2])
  ELSE \E i \in CellRows(c, ovo, f, g) : NearObs(o, ovo[i][3])
WantedCells(c, ovo, imp, nf) == {p \in (1..nf) \X (1..nf) : IF p[1] = p[2] THEN ImpAt(imp, p[1]) # {} ELSE CellRows(c, ovo, p[1], p[2]) # {}}
NoteOK(o, t, tol) == IsFinite(t) /\ NLeq(ZSub(ObsZ(o), ObsZ(t)).m, NFromInt(tol))
\* the diagonal of the figure is the diagonal of the features, on a colour scale of its own
HeatAxesOK(h) == /\ h.rows = h.cols
                 /\ \A j, k \in 1..Len(h.cells) : (h.cells[j][1] = h.cells[j][2] /\ h.cells[k][1] # h.cells[k][2]) => h.cells[j][5] # h.cells[k][5]
HeatOK(c, ovo, imp, nf, cells, tol) ==
  /\ {<<cells[j][1], cells[j][2]>> : j \in 1..Len(cells)} = WantedCells(c, ovo, imp, nf)
  /\ Len(cells) = Cardinality(WantedCells(c, ovo, imp, nf))
  /\ \A j \in 1..Len(cells) : CellOK(c, ovo, imp, cells[j][1], cells[j][2], cells[j][3]) /\ (IsFinite(cells[j][4]) => NoteOK(cells[j][3], cells[j][4], tol))

\* on either colour scale a stronger value is never the lighter one, and the strongest is darker than the weakest
HeatShadesOK(cells, diag, asc) ==
  LET S == {k \in 1..Len(cells) : (cells[k][1] = cells[k][2]) = diag}
      less(j, k) == ObsLeq(cells[j][3], cells[k][3]) /\ ~NearObs(cells[j][3], cells[k][3])
      weaker(j, k) == IF asc THEN less(k, j) ELSE less(j, k)
  IN /\ \A j, k \in S : weaker(j, k) => cells[j][6] <= cells[k][6] + 6
     /\ \A j, k \in S : (weaker(j, k) /\ ~\E l \in S : weaker(l, j) \/ weaker(k, l)) => cells[j][6] + 100 < cells[k][6]

(* ---- interaction graph: edges <<f, g, width>> *)
Stronger(code, asc, i, j) == IF asc THEN code[i] < code[j] ELSE code[i] > code[j]
SameEnds(c, p, q) == IF Undirected(c) THEN {p[1], p[2]} = {q[1], q[2]} ELSE p[1] = q[1] /\ p[2] = q[2]
\* the rows that are drawn: of two directions of an undirected edge the stronger one (the first of equal ones)
Defined(ovo, i) == IsFinite(ovo[i][3])
EdgeRows(c, ovo, code, asc) ==
  {i \in 1..Len(ovo) : Defined(ovo, i) /\
     ~\E j \in 1..Len(ovo) : j # i /\ Defined(ovo, j) /\ SameEnds(c, ovo[i], ovo[j]) /\ (Stronger(code, asc, j, i) \/ (code[i] = code[j] /\ j < i))}
ReachesCode(asc, v, thr) == IF asc THEN v <= thr ELSE v >= thr
Shown(c, ovo, code, asc, thr) == {i \in EdgeRows(c, ovo, code, asc) : ReachesCode(asc, code[i], thr)}
EdgesOf(c, edges, row) == {k \in 1..Len(edges) : SameEnds(c, edges[k], row)}
Pos(o) == IsFinite(o) /\ o[1] > 0
EdgesOK(c, ovo, code, asc, thr, edges) ==
  LET S == Shown(c, ovo, code, asc, thr)
      \* an edge that is not drawn is as good as one of no width
      W(i) == LET E == EdgesOf(c, edges, ovo[i]) IN IF E = {} THEN <<0, 0>> ELSE edges[CHOOSE k \in E : TRUE][3]
  IN /\ \A i \in S : Cardinality(EdgesOf(c, edges, ovo[i])) <= 1
     /\ \A k \in 1..Len(edges) : Pos(edges[k][3]) => \E i \in S : SameEnds(c, edges[k], ovo[i])
     /\ \A k \in 1..Len(edges) : IsFinite(edges[k][3]) /\ edges[k][3][1] >= 0
     /\ \A i, j \in S : Stronger(code, asc, i, j) => ObsLeq(W(j), W(i))
     /\ S # {} => \E i \in S : Pos(W(i))
\* labels: [prs |-> pairs whose edge has its middle there, v |-> number]; rounded to two decimals
LabelTol == 501000
EdgeLabelsOK(c, ovo, code, asc, thr, zero, n, labels) ==
  LET S == Shown(c, ovo, code, asc, thr)
      P == {i \in S : code[i] > zero}
      Over(i, t) == ZCmp(ObsZ(ovo[i][3]), ZAdd(ObsZ(t), [s |-> 1, m |-> NFromInt(LabelTol)])) > 0
  IN /\ ~asc => Len(labels) = Min2(n, Cardinality(P))
     /\ \A l \in 1..Len(labels) : \E m \in 1..Len(labels[l].prs) : \E i \in S :
           SameEnds(c, labels[l].prs[m], ovo[i]) /\ NoteOK(ovo[i][3], labels[l].v, LabelTol)
     /\ \A l \in 1..Len(labels) : Cardinality({i \in P : Over(i, labels[l].v)}) < n
NodesOK(ovo, imp, nodes) ==
  {nodes[k] : k \in 1..Len(nodes)} = {imp[i][1] : i \in 1..Len(imp)} \cup UNION {{ovo[i][1], ovo[i][2]} : i \in 1..Len(ovo)}

ImpValue(imp, f) == imp[CHOOSE i \in ImpAt(imp, f) : TRUE][2]
NodeSizesOK(imp, nodes, sizes) ==
  LET F == {k \in 1..Len(nodes) : ImpAt(imp, nodes[k]) # {}}
      v(k) == ImpValue(imp, nodes[k])
  IN (\E k \in F : Pos(v(k))) => \A j, k \in F : ObsLeq(v(j), v(k)) => IsFinite(sizes[j]) /\ IsFinite(sizes[k]) /\ (ObsLeq(sizes[j], sizes[k]) \/ NearObs(sizes[j], sizes[k]) \/ NearObs(v(j), v(k)))

(* ---- conditional depth chart *)
CondChartOK(ovo, occ, imp, k, o) ==
  LET R == Head_(ovo, k) IN
  /\ Len(o.labels) = Len(R) /\ \A j \in 1..Len(R) : o.labels[j][1] = R[j][1] /\ o.labels[j][2] = R[j][2]
  /\ \A b \in 1..Len(o.bars) : o.bars[b][1] \in 1..Len(R) /\ NearObs(o.bars[b][2], R[o.bars[b][1]][3])
  /\ \A j \in 1..Len(R) : IsFinite(R[j][3]) => Cardinality({b \in 1..Len(o.bars) : o.bars[b][1] = j}) = 1
  /\ \A a, b \in 1..Len(o.bars) : (occ[o.bars[a][1]] = occ[o.bars[b][1]]) <=> (o.bars[a][3] = o.bars[b][3])     \* colours
  /\ \A d \in 1..Len(o.dots) : o.dots[d][1] \in 1..Len(R) /\ \E i \in ImpAt(imp, R[o.dots[d][1]][2]) : NearObs(o.dots[d][2], imp[i][2])
  /\ \A j \in 1..Len(R) : ImpAt(imp, R[j][2]) # {} => Cardinality({d \in 1..Len(o.dots) : o.dots[d][1] = j}) = 1
  \* a stick joins a bar to its dot
  /\ \A d \in 1..Len(o.sticks) : LET q == o.sticks[d] IN
        /\ q[1] \in 1..Len(R)
        /\ \E i \in ImpAt(imp, R[q[1]][2]) : \/ NearObs(q[2], R[q[1]][3]) /\ NearObs(q[3], imp[i][2])
                                             \/ NearObs(q[3], R[q[1]][3]) /\ NearObs(q[2], imp[i][2])

(* ---- lollipop: points <<tree, depth, gain>>, model nodes <<tree, depth, gain, f, parent, parent's gain>> (parent 0: root);
   labelled are the interactions (larger gain than the parent of another feature) and the roots whose gain reaches
   thr10 tenths of the largest one shown *)
SamePoint(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ NearObs(a[3], b[3])
Interacts(n) == n[2] > 0 /\ n[4] # n[5] /\ ~ObsLeq(n[3], n[6])
LabelAt(l, n) == /\ n[1] = l.tree /\ NearObs(n[3], l.gain)
                 /\ \E m \in 1..Len(l.prs) : l.prs[m] = IF n[2] = 0 THEN <<0, n[4]>> ELSE <<n[5], n[4]>>
LolliOK(nodes, ntrees, frac10, depth, labelled, thr10, o) ==
  \E k \in 0..ntrees :
       /\ 10 * k < frac10 * ntrees + 10 /\ 10 * k > frac10 * ntrees - 10
       /\ LET V == {j \in 1..Len(nodes) : nodes[j][1] < k /\ nodes[j][2] <= depth}
              roots == {j \in V : nodes[j][2] = 0}
              high(j) == \A q \in roots : ZLeq(ZMul(Z(thr10), ObsZ(nodes[q][3])), ZMul(Z(10), ObsZ(nodes[j][3])))
              L == IF labelled THEN {j \in V : Interacts(nodes[j])} \cup {j \in roots : high(j)} ELSE {}
          IN
          /\ Len(o.pts) = Cardinality(V)
          /\ \A j \in V : Cardinality({q \in V : SamePoint(nodes[q], nodes[j])}) = Cardinality({p \in 1..Len(o.pts) : SamePoint(o.pts[p], nodes[j])})
          /\ \A p \in 1..Len(o.line) : \E j \in roots : nodes[j][1] = o.line[p][1] /\ NearObs(o.line[p][2], nodes[j][3])
          /\ Len(o.labels) = Cardinality(L)
          /\ \A j \in L : \E l \in 1..Len(o.labels) : LabelAt(o.labels[l], nodes[j])
          /\ \A l \in 1..Len(o.labels) : \E j \in L : LabelAt(o.labels[l], nodes[j])

(* ---- zenpath over the pairs ovo (strongest first by code), at most len panels; path: <<start, end>> *)
ZenRow(ovo, p) == CHOOSE i \in 1..Len(ovo) : {ovo[i][1], ovo[i][2]} = {p[1], p[2]}
IsPair(ovo, p) == \E i \in 1..Len(ovo) : {ovo[i][1], ovo[i][2]} = {p[1], p[2]}
\* path is a zenpath: only ever the strongest of the L + 1 strongest pairs that may come next
ZenOK(ovo, code, len, path) ==
  LET L == Min2(len, Len(ovo))
      W == 1..Min2(L + 1, Len(ovo))
      row(i) == ZenRow(ovo, path[i])
      left(i) == W \ {row(k) : k \in 1..(i - 1)}
      strongest(r, S) == \A q \in S : code[q] <= code[r]
  IN /\ Len(path) = L
     /\ \A i \in 1..L : IsPair(ovo, path[i])
     /\ \A i \in 1..L : row(i) \in left(i)                       \* never twice, only strong ones
     /\ strongest(row(1), W)
     /\ \A i \in 2..L : LET e == path[i - 1][2]
                            cand == {r \in left(i) : e \in {ovo[r][1], ovo[r][2]}}
                        IN IF cand # {} THEN row(i) \in cand /\ strongest(row(i), cand) /\ path[i][1] = e
                           ELSE strongest(row(i), left(i))
=============================================================================
