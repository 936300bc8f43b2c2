------------------------------- MODULE Forest -------------------------------
(* Recorded fits of the conditional minimal depth method on real forests.    *)
EXTENDS ForestDef, IOUtils, Json
VARIABLES i, pos, st, done
Has(case, a) == \E j \in 1..Len(case.asp) : case.asp[j] = a

\* aggregates over a forest, with the depths of every tree computed once
With(e, P(_)) == {k \in 1..Len(e.trees) : P(e.trees[k])}
CmdErr(case, e, D) ==
  LET nf == case.nf
      o == e.ovo
      \* <<sum, number of trees, occurrences>> for a pair
      Agg(r, v) ==
        LET ks == SetToSeq({k \in 1..Len(e.trees) : {r, v} \subseteq Used(e.trees[k])})
        IN <<SumSeq([j \in 1..Len(ks) |-> CMD(e.trees[ks[j]], D[ks[j]], r, v)]), Len(ks),
             Cardinality({j \in 1..Len(ks) : Occurs(e.trees[ks[j]], D[ks[j]], r, v)})>>
      want == {<<r, v>> : r, v \in 1..nf} \ {<<r, r>> : r \in 1..nf}
  IN IF Len(o) # Cardinality(want) \/ {<<o[j][1], o[j][2]>> : j \in 1..Len(o)} # want THEN "ordered pairs of the table"
     ELSE LET bad == {j \in 1..Len(o) : LET a == Agg(o[j][1], o[j][2])
                        IN ~(/\ (IF a[2] = 0 THEN IsNaN(o[j][3]) ELSE NearInt(o[j][3], a[1], a[2]))
                             /\ NearInt(o[j][4], a[3], 1))}
          IN IF bad # {} THEN LET j == CHOOSE j \in bad : TRUE
                              IN "value of " \o ToString(o[j]) \o " should be (sum, trees, occurrences) " \o ToString(Agg(o[j][1], o[j][2]))
     ELSE IF \E j \in 1..(Len(o) - 1) : ~(\/ ObsZ(o[j][4]) # ObsZ(o[j + 1][4]) /\ ObsLeq(o[j + 1][4], o[j][4])
                                          \/ /\ ObsZ(o[j][4]) = ObsZ(o[j + 1][4])
                                             /\ \/ ~IsFinite(o[j][3]) \/ ~IsFinite(o[j + 1][3])
                                                \/ ObsLeq(o[j][3], o[j + 1][3])) THEN "order of the table"
     ELSE ""
MinErr(case, e, D) ==
  LET used == UNION {Used(e.trees[k]) : k \in 1..Len(e.trees)}
      o == e.imp
      Agg(v) == LET ks == SetToSeq({k \in 1..Len(e.trees) : v \in Used(e.trees[k])})
                IN <<SumSeq([j \in 1..Len(ks) |-> MinDepth(e.trees[ks[j]], D[ks[j]], v)]), Len(ks)>>
  IN IF Len(o) # Cardinality(used) \/ {o[j][1] : j \in 1..Len(o)} # used THEN "features of the importance table"
     ELSE IF \E j \in 1..Len(o) : LET a == Agg(o[j][1]) IN ~NearInt(o[j][2], a[1], a[2]) THEN "minimal depth"
     ELSE IF \E j \in 1..(Len(o) - 1) : ~ObsLeq(o[j][2], o[j + 1][2]) THEN "order of the importance table"
     ELSE ""
Err(case, e) ==
  IF e.err # "" THEN "error " \o e.err
  ELSE LET D == TLCEval([k \in 1..Len(e.trees) |-> Depths(e.trees[k])])
           a == IF Has(case, "C11") THEN CmdErr(case, e, D) ELSE ""
       IN IF a # "" THEN a ELSE IF Has(case, "C12") THEN MinErr(case, e, D) ELSE ""
Start(case) == 0
Step(case, s, e) == [err |-> Err(case, e), st |-> s]
Cases == ndJsonDeserialize(IOEnv.VCASES)
INSTANCE TraceBase
=============================================================================
