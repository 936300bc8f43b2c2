------------------------------ MODULE LifeDef ------------------------------
(* What an explanation object may show, as a function of its class and of    *)
(* the history of its fits.  Classes: H (Friedman), G (Greenwell), S (Sejong *)
(* Oh), C (conditional minimal depth), B (split score), A (additivity meter),*)
(* I (partial dependence importance), P (permutation importance).            *)
EXTENDS Explain, FiniteSetsExt

Interaction == {"H", "G", "S", "C", "B"}
Common == {"heatmap", "graph", "bar_chart", "summary"}
Accepted(c) == CASE c = "H" -> Common \cup {"bar_chart_ova"}
                 [] c \in {"G", "S"} -> Common
                 [] c = "C" -> Common \cup {"bar_chart_conditional"}
                 [] c = "B" -> Common \cup {"lollipop"}
                 [] OTHER -> {}

\* the error a plot must end with ({} : none may occur, {""} : it must succeed)
NotFitted  == "MethodNotFittedException"
NotSupp    == "VisualizationNotSupportedException"
PlotErrors(c, fitted, hasova, vis) ==
  IF ~fitted THEN IF vis \in Accepted(c) THEN {NotFitted} ELSE {NotFitted, NotSupp}
  ELSE IF vis \notin Accepted(c) THEN {NotSupp}
  ELSE IF vis = "bar_chart_ova" /\ ~hasova THEN {NotFitted, NotSupp, "error"}
  ELSE {""}

\* -------------------------------------------------------------- result tables
PairRows(ovo, f, g) == {i \in 1..Len(ovo) : {ovo[i][1], ovo[i][2]} = {f, g}}
\* the value that looking up f and g must give (ovo has at least one row for them)
LookOK(c, asc, ovo, f, g, o) ==
  LET R == PairRows(ovo, f, g)
      D == {i \in R : IsFinite(ovo[i][3])}
  IN CASE c = "C" -> IF D = {} THEN ~IsFinite(o)
                     ELSE Near(o, FoldSet(LAMBDA i, a : ZAdd(a, ObsZ(ovo[i][3])), Z(0), D), NShift(NFromInt(Cardinality(D)), SCALE))
       [] c = "B" -> /\ \E i \in R : NearObs(o, ovo[i][3])
                     /\ \A i \in D : IF asc THEN ObsLeq(o, ovo[i][3]) ELSE ObsLeq(ovo[i][3], o)
       [] OTHER   -> \E i \in R : NearObs(o, ovo[i][3])

AllOrdered(fs) == {p \in {<<fs[i], fs[j]>> : i, j \in 1..Len(fs)} : p[1] # p[2]}
Rows3(t) == {<<t[i][1], t[i][2]>> : i \in 1..Len(t)}
PairsComplete(c, ovo, fs) ==
  CASE c \in {"H", "G", "S"} -> CompletePairs(ovo, fs)
    [] c = "C" -> Len(ovo) = Cardinality(AllOrdered(fs)) /\ Rows3(ovo) = AllOrdered(fs)
    [] c = "B" -> Len(ovo) = Cardinality(Rows3(ovo)) /\ \A p \in Rows3(ovo) : \A k \in 1..2 : \E j \in 1..Len(fs) : fs[j] = p[k]
    [] OTHER -> Len(ovo) = 0
\* conditional minimal depth: by occurrences downwards, then by value upwards, undefined values last
CondOrder(ovo, occ) ==
  \A i \in 1..(Len(ovo) - 1) :
     \/ ~ObsLeq(occ[i], occ[i + 1])
     \/ /\ NearObs(occ[i], occ[i + 1])
        /\ (IsFinite(ovo[i + 1][3]) => IsFinite(ovo[i][3]) /\ ObsLeq(ovo[i][3], ovo[i + 1][3]))
Order(c, asc, ovo, occ) ==
  IF c = "C" THEN CondOrder(ovo, occ) ELSE IF asc THEN SortedUp(Col(ovo, 3)) ELSE SortedDown(Col(ovo, 3))
ImpComplete(c, imp, fs) ==
  IF c \in {"C", "B"} THEN /\ Len(imp) = Cardinality({imp[i][1] : i \in 1..Len(imp)})
                           /\ \A i \in 1..Len(imp) : \E j \in 1..Len(fs) : fs[j] = imp[i][1]
  ELSE IF c = "A" THEN Len(imp) = 0 ELSE CompleteFeats(imp, fs)

\* two tables hold the same rows with the same values, in any order
Same2(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i][1] = b[j][1] /\ NearObs(a[i][2], b[j][2])
Same3(c, a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) :
                       /\ IF c \in {"C", "B"} THEN a[i][1] = b[j][1] /\ a[i][2] = b[j][2]
                          ELSE {a[i][1], a[i][2]} = {b[j][1], b[j][2]}
                       /\ NearObs(a[i][3], b[j][3])
SameVec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearObs(a[i], b[i])
SameTables(c, a, b) ==
  /\ a.fit = b.fit
  /\ a.fit = 1 => /\ Same3(c, a.ovo, b.ovo) /\ a.hasova = b.hasova /\ Same2(a.ova, b.ova)
                  /\ Same2(a.imp, b.imp) /\ SameVec(a.x, b.x)
\* row by row the same
Identical(a, b) ==
  /\ a.fit = b.fit
  /\ a.fit = 1 => /\ Len(a.ovo) = Len(b.ovo)
                  /\ \A i \in 1..Len(a.ovo) : a.ovo[i][1] = b.ovo[i][1] /\ a.ovo[i][2] = b.ovo[i][2] /\ NearObs(a.ovo[i][3], b.ovo[i][3])
                  /\ a.hasova = b.hasova /\ Len(a.ova) = Len(b.ova) /\ Len(a.imp) = Len(b.imp)
                  /\ \A i \in 1..Len(a.ova) : a.ova[i][1] = b.ova[i][1] /\ NearObs(a.ova[i][2], b.ova[i][2])
                  /\ \A i \in 1..Len(a.imp) : a.imp[i][1] = b.imp[i][1] /\ NearObs(a.imp[i][2], b.imp[i][2])
                  /\ SameVec(a.x, b.x)

\* ------------------------------------------------------------------ sampling
PosOf(rows, r) == {k \in 1..Len(rows) : rows[k] = r}
\* x is a sample of n rows (0: all of them, in order) of the distinct rows, carrying their labels and targets
SampleOK(rows, labels, ys, n, x, ix, y, hasy) ==
  /\ Len(x) = (IF n = 0 THEN Len(rows) ELSE n) /\ Len(ix) = Len(x) /\ (hasy => Len(y) = Len(x))
  /\ \A j \in 1..Len(x) : PosOf(rows, x[j]) # {}
  /\ LET pos == [j \in 1..Len(x) |-> CHOOSE k \in PosOf(rows, x[j]) : TRUE]
     IN /\ \A j, k \in 1..Len(x) : j # k => pos[j] # pos[k]
        /\ n = 0 => \A j \in 1..Len(x) : pos[j] = j
        /\ \A j \in 1..Len(x) : ix[j] = labels[pos[j]] /\ (hasy => y[j] = ys[pos[j]])
=============================================================================
