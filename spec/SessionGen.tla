----------------------------- MODULE SessionGen -----------------------------
(* Abstract histories of calculators and fits, generated by TLC and replayed *)
(* into the real library.  Which features, values and batch sizes the small  *)
(* numbers stand for is decided by the concrete data set of the replay.  The *)
(* free parameters of an event are drawn with RandomElement (seeded by       *)
(* TLC's -seed), its kind and the objects it touches by the simulator.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS K,          \* events per history
          NCalc,      \* calculators per history
          NData, NModel, NObj,
          Meths,      \* explanations to fit: subset of {"H", "G", "I", "A"}
          Mis,        \* one in how many calculators is passed to a fit of any data and model
          Kinds       \* subset of {"calc", "op", "fit", "fault"}
VARIABLES calcs, hist, emitted, kind
gvars == <<calcs, hist, emitted, kind>>

R(S) == RandomElement(S)

Ev(e) == hist' = Append(hist, e) /\ UNCHANGED emitted

GNewCalc == \E d \in {R(1..NData)}, m \in {R(1..NModel)} :
               /\ calcs' = Append(calcs, [d |-> d, m |-> m])
               /\ Ev([e |-> "calc", d |-> d, m |-> m, custom |-> R(BOOLEAN), b |-> R(1..6)])
GOp(fault) ==
       /\ \E k \in 1..Len(calcs), o \in {"single", "pairs", "minus"} :
            Ev([e |-> "op", k |-> k, o |-> o, fs |-> R(1..6), all |-> R(BOOLEAN), none |-> R(1..4) = 1, fault |-> fault])
       /\ UNCHANGED calcs
GFit ==  /\ \E me \in Meths, k \in 0..Len(calcs) :
              \E mis \in {k = 0 \/ R(1..Mis) = 1} :
              \E d \in {IF mis THEN R(1..NData) ELSE calcs[k].d},
                 m \in {IF mis THEN R(1..NModel) ELSE calcs[k].m} :
                 Ev([e |-> "fit", meth |-> me, k |-> k, d |-> d, m |-> m, fs |-> R(1..6),
                     norm |-> IF me = "H" THEN R(BOOLEAN) ELSE TRUE,
                     ova |-> IF me = "H" THEN R(1..3) # 1 ELSE TRUE,
                     none |-> R(1..3) = 1, b |-> R(1..6), obj |-> R(1..NObj)])
         /\ UNCHANGED calcs
Init == calcs = <<>> /\ hist = <<>> /\ emitted = FALSE /\ kind = ""
Can(x) == /\ x \in Kinds
          /\ x = "calc" => Len(calcs) < NCalc
          /\ x \in {"op", "fault"} => Len(calcs) > 0
          /\ x = "fit" => Len(hist) > 0 \/ NCalc = 0
Next == \/ /\ Len(hist) < K /\ kind = ""
           /\ kind' \in {x \in {"calc", "op", "fit", "fault"} : Can(x)}
           /\ UNCHANGED <<calcs, hist, emitted>>
        \/ /\ kind # "" /\ kind' = ""
           /\ CASE kind = "calc" -> GNewCalc
                [] kind = "op" -> GOp(FALSE)
                [] kind = "fault" -> GOp(TRUE)
                [] kind = "fit" -> GFit
        \/ /\ Len(hist) = K /\ ~emitted /\ emitted' = TRUE
           /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED <<calcs, hist, kind>>
=============================================================================
