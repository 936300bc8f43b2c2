----------------------------- MODULE LifeModel -----------------------------
(* The life of explanation objects, at the granularity of single             *)
(* assignments: a fit draws a sample, checks its arguments and assigns the   *)
(* result tables one after the other, and may fail before any of these       *)
(* assignments (the model raises, the user interrupts), in which case the    *)
(* tables it found are put back; plots and look-ups read them.               *)
(* A variant v of a fit has: Samples(v), Bad(v), WantOva(v).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Variants, MaxFits
None == <<>>
Samples(v) == v % 2 = 0
Bad(v)     == v = 3
WantOva(v) == v # 2

VARIABLES draws,     \* per object: position in its random stream
          tabs,      \* per object: [ovo, ova, imp]
          saved,     \* per object: the tables the running fit found
          pc,        \* per object: <<phase, token>>
          hist,      \* per object: sequence of fits so far, <<variant, succeeded>>
          out        \* last observation: <<object, kind, value>>
vars == <<draws, tabs, saved, pc, hist, out>>

\* a fit's token is what determines its results: the variant and where in the stream the sample was drawn
Token(o, v) == <<v, IF Samples(v) THEN draws[o] ELSE -1>>
Init == /\ draws = [o \in Objs |-> 0]
        /\ tabs = [o \in Objs |-> [ovo |-> None, ova |-> None, imp |-> None]]
        /\ pc = [o \in Objs |-> <<"idle", None>>] /\ saved = tabs
        /\ hist = [o \in Objs |-> <<>>] /\ out = <<>>
Begin(o, v) == /\ pc[o][1] = "idle" /\ Len(hist[o]) < MaxFits
               /\ hist' = [hist EXCEPT ![o] = Append(@, <<v, ~Bad(v)>>)]
               /\ draws' = [draws EXCEPT ![o] = @ + (IF Samples(v) THEN 1 ELSE 0)]
               /\ pc' = [pc EXCEPT ![o] = IF Bad(v) THEN <<"idle", None>> ELSE <<"ovo", Token(o, v)>>]
               /\ saved' = [saved EXCEPT ![o] = tabs[o]] /\ UNCHANGED tabs /\ out' = IF Bad(v) THEN <<o, "fit", "error">> ELSE <<>>
Set(o, f, next) == /\ pc[o][1] = f
                   /\ tabs' = [tabs EXCEPT ![o][f] = IF f = "ova" /\ ~WantOva(pc[o][2][1]) THEN None ELSE pc[o][2]]
                   /\ pc' = [pc EXCEPT ![o] = IF next = "idle" THEN <<"idle", None>> ELSE <<next, @[2]>>]
                   /\ UNCHANGED <<draws, hist, saved>> /\ out' = <<>>
Fail(o) == /\ pc[o][1] # "idle"
           /\ tabs' = [tabs EXCEPT ![o] = saved[o]] /\ pc' = [pc EXCEPT ![o] = <<"idle", None>>]
           /\ hist' = [hist EXCEPT ![o][Len(hist[o])][2] = FALSE]
           /\ UNCHANGED <<draws, saved>> /\ out' = <<o, "fit", "error">>
Read(o, kind) == /\ pc[o][1] = "idle"
                 /\ out' = <<o, kind, IF tabs[o].ovo = None THEN "error" ELSE IF kind = "ova" THEN tabs[o].ova ELSE tabs[o].ovo>>
                 /\ UNCHANGED <<draws, tabs, saved, pc, hist>>
Next == \E o \in Objs : \/ \E v \in Variants : Begin(o, v)
                        \/ Set(o, "ovo", "imp") \/ Set(o, "imp", "ova") \/ Set(o, "ova", "idle") \/ Fail(o)
                        \/ \E k \in {"ovo", "ova"} : Read(o, k)
Spec == Init /\ [][Next]_vars

\* the specification of the contents: a function of the history alone
DrawsBefore(h, k) == Cardinality({j \in 1..(k - 1) : Samples(h[j][1])})
LastOk(h) == LET S == {k \in 1..Len(h) : h[k][2]} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Expected(h) == LET k == LastOk(h) IN IF k = 0 THEN None ELSE <<h[k][1], IF Samples(h[k][1]) THEN DrawsBefore(h, k) ELSE -1>>
Latest == \A o \in Objs : pc[o][1] = "idle" =>
            LET x == Expected(hist[o])
            IN /\ tabs[o].ovo = x /\ tabs[o].imp = x
               /\ tabs[o].ova = IF x = None THEN None ELSE IF WantOva(x[1]) THEN x ELSE None
\* same random state and same sequence of fits: same contents
Reproducible == \A o, p \in Objs : (hist[o] = hist[p] /\ pc[o][1] = "idle" /\ pc[p][1] = "idle") => tabs[o] = tabs[p] /\ draws[o] = draws[p]
ReadsLatest == (out # <<>> /\ out[2] = "ovo") =>
                  out[3] = IF Expected(hist[out[1]]) = None THEN "error" ELSE Expected(hist[out[1]])
=============================================================================
