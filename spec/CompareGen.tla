----------------------------- MODULE CompareGen -----------------------------
(* What is compared and how: two classes of methods and a few calls.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS K
VARIABLES c1, c2, hist, emitted
R(S) == RandomElement(S)
Classes == {"H", "G", "S", "C", "B"}
Init == /\ c1 \in Classes /\ c2 \in Classes /\ hist = <<>> /\ emitted = FALSE
Do == /\ Len(hist) < K /\ UNCHANGED <<c1, c2, emitted>>
      /\ hist' = Append(hist, [k |-> R({"correlation", "correlations", "summary", "plot", "plot"}), swap |-> R(BOOLEAN),
                               box |-> R(BOOLEAN), lab |-> R({0, 3, 20})])
Emit == /\ Len(hist) = K /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("HIST " \o ToJson([cls |-> <<c1, c2>>, hist |-> hist, same |-> R(BOOLEAN)])) /\ UNCHANGED <<c1, c2, hist>>
Next == Do \/ Emit
=============================================================================
