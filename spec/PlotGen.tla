------------------------------ MODULE PlotGen ------------------------------
(* Fits and plots with options of one object.                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS K
VARIABLES c, hist, emitted
R(S) == RandomElement(S)
Common == {"heatmap", "graph", "bar_chart", "summary"}
Accepted(x) == CASE x = "H" -> Common \cup {"bar_chart_ova"}
                 [] x = "C" -> Common \cup {"bar_chart_conditional"}
                 [] x = "B" -> Common \cup {"lollipop"}
                 [] OTHER -> Common
Init == /\ c \in {"H", "G", "S", "C", "B"} /\ hist = <<>> /\ emitted = FALSE
Do == /\ Len(hist) < K /\ UNCHANGED <<c, emitted>>
      /\ hist' = Append(hist, [fit |-> hist = <<>> \/ R(1..4) = 1, v |-> R(1..40), vis |-> R(Accepted(c)), title |-> R(BOOLEAN),
                               topk |-> R({0, 0, 1, 2, 4, 30}), topk2 |-> R({0, 0, 1, 2, 3}), thr |-> R({"default", "value", "zero", "between", "above"}),
                               nlab |-> R({5, 5, 0, 2, 9}), fmt |-> R({3, 3, 1, 5}), frac |-> R({2, 10, 5}), depth |-> R({1, 1, 2, 4})])
Emit == /\ Len(hist) = K /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("HIST " \o ToJson([cls |-> c, hist |-> hist])) /\ UNCHANGED <<c, hist>>
Next == Do \/ Emit
=============================================================================
