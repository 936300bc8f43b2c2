----------------------------- MODULE PermModel -----------------------------
(* The shuffle-score-restore loops of the permutation based explanations as  *)
(* a state machine over a working copy of the data.  col[f] is the           *)
(* arrangement of column f in the working copy (identity = intact).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, F, R       \* rows, features, repeats
VARIABLES col, todo, phase, log
vars == <<col, todo, phase, log>>

Id == [j \in 1..N |-> j]
Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
\* evaluations in program order: pairs (both alone, then together), then single features
RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN <<>> ELSE s \o Rep(s, k - 1)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2])
                                     IN <<x>> \o SeqOf(S \ {x})
PairSeq == SeqOf({p \in (1..F) \X (1..F) : p[1] < p[2]})
RECURSIVE PairWork(_)
PairWork(q) == IF q = <<>> THEN <<>>
               ELSE LET p == Head(q) IN Rep(<<{p[1]}, {p[2]}, {p[1], p[2]}>>, R) \o PairWork(Tail(q))
Work == <<{}>> \o PairWork(PairSeq) \o Rep([f \in 1..F |-> {f}], R)

Init == col = [f \in 1..F |-> Id] /\ todo = Work /\ phase = "shuffle" /\ log = 0
Shuffle == /\ phase = "shuffle" /\ todo # <<>>
           /\ \E p \in Perms : col' = [f \in 1..F |-> IF f \in Head(todo) THEN p ELSE col[f]]
           /\ phase' = "score" /\ UNCHANGED <<todo, log>>
Score   == /\ phase = "score" /\ phase' = "restore" /\ log' = log + 1 /\ UNCHANGED <<col, todo>>
Restore == /\ phase = "restore" /\ phase' = "shuffle" /\ col' = [f \in 1..F |-> Id]
           /\ todo' = Tail(todo) /\ UNCHANGED log
Next == Shuffle \/ Score \/ Restore
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* when a score is taken, exactly the named columns are arranged, all of them alike
Exact == phase = "score" =>
           /\ \A f \in (1..F) \ Head(todo) : col[f] = Id
           /\ \A f, g \in Head(todo) : col[f] = col[g]
Count == todo = <<>> => log = 1 + R * (3 * Len(PairSeq) + F)
Ends  == <>(todo = <<>>)
=============================================================================
