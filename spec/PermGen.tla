------------------------------ MODULE PermGen ------------------------------
(* Abstract histories for the permutation based explanations: which object   *)
(* is fitted next, as interaction method or as stand-alone importance, on a  *)
(* sample or on all rows, for which features.                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS K
VARIABLES hist, emitted
R(S) == RandomElement(S)
Init == hist = <<>> /\ emitted = FALSE
Next == \/ /\ Len(hist) < K /\ UNCHANGED emitted
           /\ \E kind \in {"fit", "imp"}, obj \in 1..2, samp \in BOOLEAN :
                hist' = Append(hist, [kind |-> kind, obj |-> obj, samp |-> samp /\ kind = "fit", n |-> R(2..6),
                                      R |-> R(1..4), fs |-> R(1..6), none |-> R(1..3) = 1, y |-> R(1..3)])
        \/ /\ Len(hist) = K /\ ~emitted /\ emitted' = TRUE
           /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED hist
=============================================================================
