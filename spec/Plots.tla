------------------------------- MODULE Plots -------------------------------
(* Recorded plots.  The state is what the latest fit left in the tables;     *)
(* every plot event must show exactly that.                                  *)
EXTENDS PlotDef, IOUtils, Json
VARIABLES i, pos, st, done

BarPanelsOK(s, e) ==
  LET want == (IF Len(s.ovo) > 0 THEN <<"ovo">> ELSE <<>>) \o (IF e.vis = "summary" /\ s.hasova = 1 THEN <<"ova">> ELSE <<>>)
      fits(w, b) == IF w = "ovo" THEN OvoBarsOK(s.ovo, e.topk, b) ELSE OvaBarsOK(s.ova, e.topk2, b)
  IN /\ Len(e.bars) = Len(want)
     /\ CASE Len(want) = 0 -> TRUE
          [] Len(want) = 1 -> fits(want[1], e.bars[1])
          [] OTHER -> \/ fits(want[1], e.bars[1]) /\ fits(want[2], e.bars[2])
                      \/ fits(want[1], e.bars[2]) /\ fits(want[2], e.bars[1])
GraphErr(case, s, e) ==
  IF Len(e.graph) # 1 THEN "no graph"
  ELSE LET g == e.graph[1] IN
       IF ~NodesOK(s.ovo, s.imp, g.nodes) THEN "nodes of the graph"
       ELSE IF ~NodeSizesOK(s.imp, g.nodes, g.sizes) THEN "sizes of the nodes"
       ELSE IF ~EdgesOK(e.c, s.ovo, e.code, e.asc = 1, e.thr, g.edges) THEN "edges of the graph"
       ELSE IF ~EdgeLabelsOK(e.c, s.ovo, e.code, e.asc = 1, e.thr, e.zero, e.nlab, g.labels) THEN "edge labels" ELSE ""
HeatErr(case, s, e) == IF Len(e.heat) # 1 \/ ~HeatOK(e.c, s.ovo, s.imp, case.nf, e.heat[1].cells, e.tol) THEN "heatmap"
                       ELSE IF ~HeatAxesOK(e.heat[1]) THEN "axes of the heatmap"
                       ELSE IF ~HeatShadesOK(e.heat[1].cells, FALSE, e.asc = 1) \/ ~HeatShadesOK(e.heat[1].cells, TRUE, e.iasc = 1)
                            THEN "shades of the heatmap" ELSE ""
BarErr(case, s, e)  == IF ~BarPanelsOK(s, e) THEN "bars" ELSE ""
OvaErr(case, s, e)  == IF Len(e.bars) # 1 \/ ~OvaBarsOK(s.ova, e.topk2, e.bars[1]) THEN "one-vs-all bars" ELSE ""
First3(a, b, c) == IF a # "" THEN a ELSE IF b # "" THEN b ELSE c
\* the codes really order the tabulated values
CodesOK(s, e) == Len(e.code) = Len(s.ovo) /\ \A a, b \in 1..Len(s.ovo) :
    (Defined(s.ovo, a) /\ Defined(s.ovo, b) /\ e.code[a] <= e.code[b]) => ObsLeq(s.ovo[a][3], s.ovo[b][3])
Err(case, s, e) ==
  IF e.err # "" THEN "error " \o e.err
  ELSE IF e.e = "fit" THEN ""
  ELSE IF e.tq # "" /\ ~\E t \in 1..Len(e.ts) : e.ts[t] = e.tq THEN "title"
  ELSE IF e.size # <<>> /\ e.size # e.shown THEN "size of the figure"
  ELSE IF ~CodesOK(s, e) THEN "tables changed between the fit and the plot"
  ELSE CASE e.vis = "heatmap"   -> HeatErr(case, s, e)
         [] e.vis = "graph"     -> GraphErr(case, s, e)
         [] e.vis = "bar_chart" -> BarErr(case, s, e)
         [] e.vis = "bar_chart_ova" -> OvaErr(case, s, e)
         [] e.vis = "summary"   -> First3(HeatErr(case, s, e), GraphErr(case, s, e), BarErr(case, s, e))
         [] e.vis = "bar_chart_conditional" -> IF Len(e.cond) # 1 \/ ~CondChartOK(s.ovo, s.occ, s.imp, e.topk2, e.cond[1]) THEN "conditional depth chart" ELSE ""
         [] e.vis = "lollipop"  -> IF Len(e.lol) # 1 \/ ~LolliOK(e.nodes, e.ntrees, e.frac, e.depth, e.labelled = 1, e.lthr, e.lol[1]) THEN "lollipop" ELSE ""
         [] OTHER -> ""
Start(case) == [ovo |-> <<>>, occ |-> <<>>, ova |-> <<>>, imp |-> <<>>, hasova |-> 0]
Step(case, s, e) == [err |-> Err(case, s, e),
                     st |-> IF e.e = "fit" THEN [ovo |-> e.tab.ovo, occ |-> e.tab.occ, ova |-> e.tab.ova, imp |-> e.tab.imp, hasova |-> e.tab.hasova] ELSE s]
Cases == ndJsonDeserialize(IOEnv.VCASES)
INSTANCE TraceBase
=============================================================================
