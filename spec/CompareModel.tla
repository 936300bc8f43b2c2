---------------------------- MODULE CompareModel ----------------------------
(* The laws a comparison of two methods must satisfy, checked on the         *)
(* definition for all value assignments within the bounds, and the aligned   *)
(* dictionary computation used by the comparator against it.                 *)
EXTENDS CompareDef
CONSTANTS N, M          \* feature pairs, distinct values
VARIABLES u, v, a, b, step, dict1, dict2, common
vars == <<u, v, a, b, step, dict1, dict2, common>>

\* u, v: values by pair, 0 = the pair is missing in the table
Init == /\ u \in [1..N -> 0..M] /\ v \in [1..N -> 0..M] /\ a \in BOOLEAN /\ b \in BOOLEAN
        /\ step = 0 /\ dict1 = <<>> /\ dict2 = <<>> /\ common = <<>>
\* the comparator sorts each table by strength, keeps the first value per pair, and joins on the pair in the order of table 1
Order1 == SetToSortSeq({k \in 1..N : u[k] # 0}, LAMBDA x, y : IF u[x] # u[y] THEN (IF a THEN u[x] < u[y] ELSE u[x] > u[y]) ELSE x < y)
Next == \/ /\ step = 0 /\ step' = 1 /\ dict1' = Order1 /\ dict2' = {k \in 1..N : v[k] # 0} /\ UNCHANGED <<u, v, a, b, common>>
        \/ /\ step = 1 /\ step' = 2 /\ common' = SelectSeq(dict1, LAMBDA k : k \in dict2) /\ UNCHANGED <<u, v, a, b, dict1, dict2>>
Spec == Init /\ [][Next]_vars
CU == [j \in 1..Len(common) |-> u[common[j]]]
CV == [j \in 1..Len(common) |-> v[common[j]]]
\* in the order of the pairs' names instead: the correlation does not depend on the order of the tables
Plain == SetToSortSeq({k \in 1..N : u[k] # 0 /\ v[k] # 0}, LAMBDA x, y : x < y)
PU == [j \in 1..Len(Plain) |-> u[Plain[j]]]
PV == [j \in 1..Len(Plain) |-> v[Plain[j]]]
Kinds == {"pearson", "kendall", "spearman"}
Defined(c) == c[2] # 0 /\ c[3] # 0
Neg(q) == [j \in 1..Len(q) |-> -q[j]]
Laws == step = 2 =>
  \A k \in Kinds :
    LET c == Corr(k, CU, a, CV, b) IN
    /\ c = Corr(k, PU, a, PV, b)                                     \* alignment, not order, matters
    /\ LET d == Corr(k, CV, b, CU, a) IN c[1] = d[1] /\ c[2] = d[3] /\ c[3] = d[2]     \* swapping
    /\ c = Corr(k, Neg(CU), ~a, CV, b)                                  \* only the sense of strength counts
    /\ c = Corr(k, [j \in 1..Len(CU) |-> CU[j] * CU[j] + 3], a, CV, b)     \* only the ranking counts
    /\ Defined(c) => (c[1] * c[1] <= c[2] * c[3])                     \* within [-1, 1]
    /\ (CU = CV /\ a = b /\ Defined(c)) => c[1] * c[1] = c[2] * c[3] /\ c[1] > 0       \* identical rankings: 1
    /\ (CV = Neg([j \in 1..Len(CU) |-> CU[j] - M - 1]) /\ a = b /\ Defined(c)) => c[1] * c[1] = c[2] * c[3] /\ c[1] < 0   \* opposite: -1
=============================================================================
