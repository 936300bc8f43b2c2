----------------------------- MODULE PlotModel -----------------------------
(* The two algorithms behind the plots against what PlotDef demands of their *)
(* outcome, for all tables within the bounds: edge widths of the interaction *)
(* graph, and the zenpath.                                                   *)
EXTENDS PlotDef
CONSTANTS NF, M, LMax
VARIABLES vals, asc, thr, len, mode, path, left, width
vars == <<vals, asc, thr, len, mode, path, left, width>>

PairSeq == SetToSortSeq({p \in (1..NF) \X (1..NF) : p[1] < p[2]}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
NP == Cardinality({p \in (1..NF) \X (1..NF) : p[1] < p[2]})
Num8(k) == IF k = 0 THEN <<0>> ELSE <<1, 0, 0, k>>           \* k as a logged number
\* the table in order of strength; stable, like the code's sort
Perm_ == SetToSortSeq(1..NP, LAMBDA i, j : IF vals[i] # vals[j] THEN (IF asc THEN vals[i] < vals[j] ELSE vals[i] > vals[j]) ELSE i < j)
Ovo  == [k \in 1..NP |-> <<PairSeq[Perm_[k]][1], PairSeq[Perm_[k]][2], Num8(vals[Perm_[k]])>>]
Code == [k \in 1..NP |-> vals[Perm_[k]]]

Init == /\ vals \in [1..NP -> 0..M] /\ path = <<>> /\ width = <<>>
        /\ \/ mode = "edges" /\ asc \in BOOLEAN /\ thr \in 0..(M + 1) /\ len = 0 /\ left = {}
           \/ mode = "zen" /\ asc = FALSE /\ thr = 0 /\ len \in 1..LMax /\ left = 1..Min2(Min2(len, NP) + 1, NP)

\* widths scaled to 0..MaxW as in the code; fractions are compared as numerator over the common M - m, scaled by 1000
Widths == LET sig(k) == ReachesCode(asc, Code[k], thr)
              v == [k \in 1..NP |-> IF sig(k) THEN Code[k] ELSE IF asc THEN thr ELSE 0]
              hi == MaxSeq(v)
              lo == MinSeq(v)
          IN [k \in 1..NP |-> IF ~sig(k) THEN 0
                              ELSE IF hi = lo THEN 1000
                              ELSE IF asc THEN (1000 * (hi - v[k])) \div (hi - lo) ELSE (1000 * (v[k] - lo)) \div (hi - lo)]
Edges == /\ mode = "edges" /\ width = <<>> /\ width' = [k \in 1..NP |-> <<Ovo[k][1], Ovo[k][2], Num8(Widths[k])>>]
         /\ UNCHANGED <<vals, asc, thr, len, mode, path, left>>
\* first pair; then the first strongest pair with the feature the path ended on, else the first that is left
ZFirst(S) == Min(S)
ZPanel == /\ mode = "zen" /\ Len(path) < Min2(len, NP)
          /\ LET cand == IF path = <<>> THEN {} ELSE {r \in left : path[Len(path)][2] \in {Ovo[r][1], Ovo[r][2]}}
                 best(S) == Min({r \in S : \A q \in S : Code[q] <= Code[r]})
                 e == path[Len(path)][2]
             IN IF cand # {}
                THEN LET r == best(cand) IN
                     path' = Append(path, IF Ovo[r][1] = e THEN <<e, Ovo[r][2]>> ELSE <<e, Ovo[r][1]>>) /\ left' = left \ {r}
                ELSE LET r == ZFirst(left) IN path' = Append(path, <<Ovo[r][1], Ovo[r][2]>>) /\ left' = left \ {r}
          /\ UNCHANGED <<vals, asc, thr, len, mode, width>>
Next == Edges \/ ZPanel
Spec == Init /\ [][Next]_vars

EdgesSafe == (mode = "edges" /\ width # <<>>) => EdgesOK("H", Ovo, Code, asc, thr, width)
ZenSafe   == (mode = "zen" /\ Len(path) = Min2(len, NP)) => ZenOK(Ovo, Code, len, path)
\* the model runs to the end: there is always a pair left for the next panel
ZenLive   == mode = "zen" => (Len(path) < Min2(len, NP) => left # {})
=============================================================================
