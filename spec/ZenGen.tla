------------------------------- MODULE ZenGen -------------------------------
(* Fits, profiles and zenplots of one partial dependence based object.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS K
VARIABLES c, hist, emitted
R(S) == RandomElement(S)
Init == /\ c \in {"H", "G"} /\ hist = <<>> /\ emitted = FALSE
Do == /\ Len(hist) < K /\ UNCHANGED <<c, emitted>>
      /\ hist' = Append(hist, [fit |-> hist = <<>> \/ R(1..4) = 1, v |-> R(1..40), k |-> R({"zen", "zen", "one", "two"}),
                               len |-> R({7, 1, 2, 3, 4, 5, 6, 12}), kind |-> R({"colormesh", "colormesh", "contour"})])
Emit == /\ Len(hist) = K /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("HIST " \o ToJson([cls |-> c, hist |-> hist])) /\ UNCHANGED <<c, hist>>
Next == Do \/ Emit
=============================================================================
