-------------------------------- MODULE Zen --------------------------------
(* Recorded profiles and zenplots of partial dependence based methods.  The  *)
(* state is the latest fit: rows it used (level codes), model, pair table.   *)
(* Levels are coded over the whole data; e.rows are the rows used.           *)
EXTENDS PlotDef, IOUtils, Json
VARIABLES i, pos, st, done

Tbl(case, s) == [n |-> Len(s.rows), nf |-> case.nf, lev |-> case.lev, rows |-> s.rows, terms |-> s.terms, den |-> 1]
Occurs(s, f) == {s.rows[r][f] : r \in 1..Len(s.rows)}
Seen(s, f, g) == {<<s.rows[r][f], s.rows[r][g]>> : r \in 1..Len(s.rows)}
\* cells <<level of f, level of g, value>> shown with f on one axis and g on the other
CellsOK(case, s, f, g, cells, contour) ==
  LET t == Tbl(case, s)
      all == Occurs(s, f) \X Occurs(s, g)
      must == IF s.c = "G" THEN all ELSE Seen(s, f, g)
  IN /\ f # g /\ f \in 1..case.nf /\ g \in 1..case.nf
     /\ \A j \in 1..Len(cells) : <<cells[j][1], cells[j][2]>> \in all
     /\ \A j \in 1..Len(cells) : IsFinite(cells[j][3]) => NearInt(cells[j][3], PD2(t, f, g, cells[j][1], cells[j][2]), t.n)
     /\ \A p \in must : \E j \in 1..Len(cells) : cells[j][1] = p[1] /\ cells[j][2] = p[2] /\ IsFinite(cells[j][3])
LineOK(case, s, f, pts) ==
  LET t == Tbl(case, s) IN
  /\ {pts[j][1] : j \in 1..Len(pts)} = Occurs(s, f)
  /\ Len(pts) = Cardinality(Occurs(s, f))
  /\ \A j \in 1..Len(pts) : NearInt(pts[j][2], PD1(t, f, pts[j][1]), t.n)
  \* [3]: place on the axis; the line does not turn back
  /\ \/ \A j \in 1..(Len(pts) - 1) : pts[j][3] < pts[j + 1][3]
     \/ \A j \in 1..(Len(pts) - 1) : pts[j][3] > pts[j + 1][3]
\* (a scale without extent, of a constant model, is widened by the colour bar for the panel it is attached to)
Flat1(e) == \E p \in 1..Len(e.panels) : IsFinite(e.panels[p].lo) /\ NearObs(e.panels[p].lo, e.panels[p].hi)
ScaleOK(e) == Flat1(e) \/ \A p \in 1..Len(e.panels) : LET q == e.panels[p] IN
     /\ IsFinite(q.lo) /\ IsFinite(q.hi)
     /\ NearObs(q.lo, e.panels[1].lo) /\ NearObs(q.hi, e.panels[1].hi)
     /\ \A j \in 1..Len(q.cells) : IsFinite(q.cells[j][3]) => ObsLeq(q.lo, q.cells[j][3]) /\ ObsLeq(q.cells[j][3], q.hi)
PathOf(e) == [p \in 1..Len(e.panels) |-> IF e.panels[p].vert = 1 THEN <<e.panels[p].y, e.panels[p].x>> ELSE <<e.panels[p].x, e.panels[p].y>>]
\* the requested title is shown; if it is empty, no other one is
TitleOK(e) == /\ \E t \in 1..Len(e.ts) : e.ts[t] = e.tq
              /\ e.tq = "'" => \A t \in 1..Len(e.ts) : e.ts[t] = e.tq

Err(case, s, e) ==
  IF e.err # "" THEN "error " \o e.err
  ELSE IF "tq" \in DOMAIN e /\ e.tq # "" /\ ~TitleOK(e) THEN "title"
  ELSE CASE e.e = "fit" -> ""
    [] e.e = "one" -> IF e.x # e.f1 THEN "axis label of a profile"
                      ELSE IF ~LineOK(case, s, e.f1, e.pts) THEN "values of a profile" ELSE ""
    [] e.e = "two" -> IF {e.x, e.y} # {e.f1, e.f2} THEN "axis labels of a profile"
                      ELSE IF ~CellsOK(case, s, e.x, e.y, e.cells, FALSE) THEN "values of a profile" ELSE ""
    [] e.e = "zen" -> IF \E p \in 1..Len(e.panels) : e.panels[p].x = 0 \/ e.panels[p].y = 0 THEN "labels of the zenplot"
                      ELSE IF ~ZenOK(s.ovo, s.code, e.len, PathOf(e)) THEN "zenpath"
                      ELSE IF \E p \in 1..Len(e.panels) : ~CellsOK(case, s, e.panels[p].x, e.panels[p].y, e.panels[p].cells, FALSE) THEN "values of a zenplot panel"
                      ELSE IF ~ScaleOK(e) THEN "colour scale of a zenplot" ELSE ""
    [] OTHER -> ""
Start(case) == 0
Step(case, s, e) == [err |-> Err(case, s, e),
                     st |-> IF e.e = "fit" THEN [c |-> e.c, rows |-> e.rows, terms |-> e.terms, ovo |-> e.ovo, code |-> e.code] ELSE s]
Cases == ndJsonDeserialize(IOEnv.VCASES)
INSTANCE TraceBase
=============================================================================
