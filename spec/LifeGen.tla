------------------------------ MODULE LifeGen ------------------------------
(* Histories of several explanation objects.  The small numbers stand for    *)
(* ways to fit (v) and feature choices; the replay makes them concrete.      *)
(* Unfit: one in how many plots, look-ups and comparisons may concern an     *)
(* object that was not fitted, or an unsupported plot.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, NObj, Classes, Weights, Unfit
VARIABLES hist, objs, fitted, emitted
R(S) == RandomElement(S)
\* weights of fit, bad, plot, look, cmp, prof, crash (a fit during which the model fails)
WC15 == <<6, 1, 0, 2, 0, 0, 1>>
WC16 == <<5, 3, 4, 2, 2, 1, 3>>
WC17 == <<7, 1, 1, 1, 0, 0, 1>>
WC18 == <<4, 1, 6, 1, 2, 2, 1>>
Weighted == [fit |-> Weights[1], bad |-> Weights[2], plot |-> Weights[3], look |-> Weights[4], cmp |-> Weights[5], prof |-> Weights[6],
             crash |-> Weights[7]]
Kinds == {"fit", "bad", "plot", "look", "cmp", "prof", "crash"}
Bag == {<<k, n>> \in Kinds \X (1..9) : n <= Weighted[k]}
Inter == {"H", "G", "S", "C", "B"}
All == {"heatmap", "graph", "bar_chart", "bar_chart_ova", "summary", "lollipop", "bar_chart_conditional", "pie"}
Common == {"heatmap", "graph", "bar_chart", "summary"}
Accepted(c) == CASE c = "H" -> Common \cup {"bar_chart_ova"}
                 [] c = "C" -> Common \cup {"bar_chart_conditional"}
                 [] c = "B" -> Common \cup {"lollipop"}
                 [] OTHER -> Common
Can(k, c) == CASE k = "fit" -> TRUE
               [] k = "bad" -> c \in {"H", "G", "B", "I", "A"}
               [] k = "crash" -> c \in {"H", "G", "S", "I", "A", "P"}
               [] k \in {"plot", "look", "cmp"} -> c \in Inter
               [] k = "prof" -> c \in {"H", "G"}

\* at which query of the model
Points == {1, 2, 3, 4, 5, 7, 10, 15}
Init == hist = <<>> /\ objs = <<>> /\ fitted = {} /\ emitted = FALSE
\* RandomElement must be drawn once: bind it with \E, not with LET
New == /\ Len(objs) < NObj /\ UNCHANGED <<emitted, fitted>>
       \* often several objects of one class
       /\ \E c \in {IF objs # <<>> /\ R(1..3) = 1 THEN objs[1] ELSE R(Classes)} :
            objs' = Append(objs, c) /\ hist' = Append(hist, [e |-> "new", c |-> c, seed |-> R(0..3), o |-> 0, v |-> 0, o2 |-> 0, vis |-> "", at |-> 0])
Pool(k, any) == {o \in 1..NObj : Can(k, objs[o]) /\ (k \in {"fit", "bad", "crash"} \/ any \/ o \in fitted)}
Second(any)  == LET Q == {p \in 1..NObj : objs[p] \in Inter /\ (any \/ p \in fitted)} IN IF Q = {} THEN 1..NObj ELSE Q
Do ==  /\ Len(objs) = NObj /\ Len(hist) < NObj + K /\ UNCHANGED <<objs, emitted>>
       /\ \E any \in {R(1..Unfit) = 1}, odd \in {R(1..Unfit) = 1}, k0 \in {R(Bag)[1]} :
          \E k \in {IF Pool(k0, any) = {} THEN "fit" ELSE k0} :
          \E o \in {R(Pool(k, any))}, o2 \in {R(Second(any))} :
          \E vis \in {IF odd THEN R(All) ELSE R(Accepted(objs[o]))} :
             /\ hist' = Append(hist, [e |-> k, c |-> objs[o], seed |-> 0, o |-> o, v |-> R(1..8), o2 |-> o2, vis |-> vis, at |-> R(Points)])
             /\ fitted' = IF k = "fit" THEN fitted \cup {o} ELSE fitted
Emit == /\ Len(hist) = NObj + K /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED <<hist, objs, fitted>>
Next == New \/ Do \/ Emit
=============================================================================
