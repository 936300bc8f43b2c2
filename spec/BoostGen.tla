----------------------------- MODULE BoostGen -----------------------------
(* Histories on boosted models: a model is a sequence of trees grown split   *)
(* by split <<leaf, feature, gain, cover>>; then fits and importance calls   *)
(* with every combination of options.                                        *)
EXTENDS ForestModel, Json
CONSTANTS MaxTrees, Calls
VARIABLES cur, trees, calls, target, phase
gv == <<t, cur, trees, calls, target, phase>>
Targets == {0, 1, 2, 3, 4, 5, 6, 8, 10}
IMetrics == {"sum_gain", "mean_gain", "sum_cover", "mean_cover", "mean_depth"}
VMetrics == IMetrics \cup {"mean_weighted_depth", "root_frequency", "weighted_root_frequency"}
GInit == /\ Init /\ cur = <<>> /\ trees = <<>> /\ calls = <<>> /\ phase = "grow" /\ target = RandomElement(Targets)
Grow == /\ phase = "grow" /\ Len(cur) < target
        /\ \E x \in {y \in Nodes(t) : IsLeaf(t, y)} :
             LET v == RandomElement(1..F) gn == RandomElement(1..7) c == RandomElement(1..9)
             IN Split(x, v) /\ cur' = Append(cur, <<x, v, gn, c>>)
        /\ UNCHANGED <<trees, calls, target, phase>>
EndTree == /\ phase = "grow" /\ Len(cur) = target
           /\ trees' = Append(trees, cur) /\ t' = [l |-> <<0>>, r |-> <<0>>, f |-> <<0>>] /\ cur' = <<>>
           /\ target' = RandomElement(Targets)
           /\ phase' = (IF Len(trees) + 1 = MaxTrees \/ RandomElement(1..4) = 1 THEN "call" ELSE "grow")
           /\ UNCHANGED calls
Call == /\ phase = "call" /\ Len(calls) < Calls
        /\ calls' = Append(calls, [kind |-> RandomElement({"fit", "fit", "imp"}), m |-> RandomElement(IMetrics),
                                   im |-> RandomElement(VMetrics), od |-> RandomElement(BOOLEAN),
                                   wrap |-> RandomElement({"raw", "handler"}), fs |-> RandomElement(SUBSET (1..F))])
        /\ UNCHANGED <<t, cur, trees, target, phase>>
Emit == /\ phase = "call" /\ Len(calls) = Calls /\ phase' = "done"
        /\ PrintT("HIST " \o ToJson([trees |-> trees, calls |-> calls])) /\ UNCHANGED <<t, cur, trees, calls, target>>
GNext == Grow \/ EndTree \/ Call \/ Emit
=============================================================================
