----------------------------- MODULE ForestGen -----------------------------
(* Histories of forests: every forest is a sequence of trees, every tree a   *)
(* sequence of splits <<leaf, feature>>; generated by TLC, built as real     *)
(* scikit-learn forests by the harness.                                      *)
EXTENDS ForestModel, Json
CONSTANTS MaxTrees, Fits
VARIABLES cur, trees, hist, target, emitted
gv == <<t, cur, trees, hist, target, emitted>>
Targets == {0, 1, 2, 3, 4, 5, 7, 9, 12}
GInit == /\ Init /\ cur = <<>> /\ trees = <<>> /\ hist = <<>> /\ emitted = FALSE /\ target = RandomElement(Targets)
Grow == /\ Len(cur) < target /\ Len(trees) < MaxTrees /\ Len(hist) < Fits
        /\ \E x \in {y \in Nodes(t) : IsLeaf(t, y)} : LET v == RandomElement(1..F) IN
             Split(x, v) /\ cur' = Append(cur, <<x, v>>)
        /\ UNCHANGED <<trees, hist, target, emitted>>
Fresh == t' = [l |-> <<0>>, r |-> <<0>>, f |-> <<0>>] /\ cur' = <<>> /\ target' = RandomElement(Targets)
EndTree == /\ Len(cur) = target /\ Len(trees) < MaxTrees /\ Len(hist) < Fits
           /\ trees' = Append(trees, cur) /\ Fresh /\ UNCHANGED <<hist, emitted>>
EndForest == /\ Len(trees) > 0 /\ cur = <<>> /\ Len(hist) < Fits
             /\ (Len(trees) = MaxTrees \/ RandomElement(1..3) = 1)
             /\ hist' = Append(hist, trees) /\ trees' = <<>> /\ Fresh /\ UNCHANGED emitted
Emit == /\ Len(hist) = Fits /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED <<t, cur, trees, hist, target>>
GNext == Grow \/ EndTree \/ EndForest \/ Emit
=============================================================================
