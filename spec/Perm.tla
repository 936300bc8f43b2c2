-------------------------------- MODULE Perm --------------------------------
(* Explanations by shuffling columns: Sejong Oh's interaction measure and    *)
(* permutation importance.  A recorded event has the frame and targets the   *)
(* explanation worked on, every query of the model, and the resulting        *)
(* tables.  The harness proposes which queries belong together (e.tri: for   *)
(* every row of the pair table the query numbers <<f alone, g alone, both>>  *)
(* of each repeat; e.one: for every row of the importance table the query    *)
(* numbers of the repeats; e.base: the intact queries); the specification    *)
(* verifies that the proposal is a partition of all queries and that every   *)
(* query shuffles exactly what it should.                                    *)
EXTENDS Explain, IOUtils, Json
VARIABLES i, pos, st, done

Has(case, a) == \E j \in 1..Len(case.asp) : case.asp[j] = a

\* ------------------------------------------------------------------ scores
Out(case, row) == IF case.cls THEN (IF Predict(case, row) > 0 THEN 1 ELSE 0) ELSE Predict(case, row)
\* sum of squared errors / number of hits over a queried frame q against targets y
SqErr(case, q, y) == SumSeq([j \in 1..Len(q) |-> (Out(case, q[j]) - y[j]) * (Out(case, q[j]) - y[j])])
AbsErr(case, q, y) == SumSeq([j \in 1..Len(q) |-> LET d == Out(case, q[j]) - y[j] IN IF d < 0 THEN -d ELSE d])
Hits(case, q, y)  == SumSeq([j \in 1..Len(q) |-> IF Out(case, q[j]) = y[j] THEN 1 ELSE 0])
\* a score as a signed number over the common denominator ScoreDen
Score(case, q, y) ==
  CASE case.metric = "MSE"  -> Z(SqErr(case, q, y))
    [] case.metric = "RMSE" -> ZN(RootNum(NFromInt(SqErr(case, q, y)), NFromInt(Len(q))))
    [] case.metric \in {"Accuracy", "HitCount"} -> Z(Hits(case, q, y))
    [] case.metric = "MAE" -> Z(AbsErr(case, q, y))
    [] case.metric = "Excess" -> Z(SumSeq([j \in 1..Len(q) |-> LET d == Out(case, q[j]) - y[j] IN IF d < 0 THEN 0 ELSE d]))
    [] case.metric = "NegMAE" -> Z(-AbsErr(case, q, y))
ScoreDen(case, n) ==
  CASE case.metric = "MSE"  -> NFromInt(n * case.den * case.den)
    [] case.metric = "RMSE" -> NShift(NFromInt(n * case.den), SCALE)
    [] case.metric = "Accuracy" -> NFromInt(n)
    [] case.metric = "HitCount" -> NFromInt(1)
    [] case.metric \in {"MAE", "NegMAE", "Excess"} -> NFromInt(n * case.den)
\* the last ones are metrics of the caller's own
Maximised(m) == m \in {"Accuracy", "HitCount", "NegMAE"}

\* ----------------------------------------------------------------- shuffles
ColBag(q, f) == SortInts([j \in 1..Len(q) |-> q[j][f]])
\* q is x with some permutation of the rows applied to exactly the columns S (others intact)
OnlyCols(x, q, S, nf) ==
  /\ Len(q) = Len(x)
  /\ \A f \in 1..nf : IF f \in S THEN ColBag(q, f) = ColBag(x, f)
                      ELSE \A j \in 1..Len(x) : q[j][f] = x[j][f]
\* the columns S are moved together: the bag of their joint values is kept
Together(x, q, S) ==
  LET J(z) == [j \in 1..Len(z) |-> [f \in S |-> z[j][f]]]
  IN \A j \in 1..Len(x) : Cardinality({k \in 1..Len(q) : J(q)[k] = J(x)[j]})
                          = Cardinality({k \in 1..Len(x) : J(x)[k] = J(x)[j]})
\* where the rows of a column went (columns without duplicates only)
PermOf(x, q, f) == [j \in 1..Len(q) |-> CHOOSE k \in 1..Len(x) : x[k][f] = q[j][f]]

\* ------------------------------------------------------------------ targets
\* every sampled row is a row of the data together with its own target (rows are distinct when sampled)
Aligned(case, x, y) ==
  /\ Len(x) = Len(y)
  /\ IF case.sampled
     THEN \A j \in 1..Len(x) : \E k \in 1..case.n : case.rows[k] = x[j] /\ case.y[k] = y[j]
     ELSE x = case.rows /\ y = case.y

----------------------------------------------------------------------------
AllTri(e) == Flat([j \in 1..Len(e.tri) |-> Flat(e.tri[j], 1, <<>>)], 1, <<>>)
AllOne(e) == Flat(e.one, 1, <<>>)
Partition(e) == LET u == AllTri(e) \o AllOne(e) \o e.base
                IN SortInts(u) = [j \in 1..Len(e.q) |-> j]

PairScore(case, e, sc, j) ==
  LET R == Len(e.tri[j])
      one(r) == LET t == e.tri[j][r] IN
                ZSub(ZAdd(sc[t[3]], sc[e.base[1]]), ZAdd(sc[t[1]], sc[t[2]])).m
  IN ZN(NSumSeq([r \in 1..R |-> one(r)]))
ImpScore(case, e, sc, j) ==
  LET R == Len(e.one[j])
      d == ZSub(ZSumSeq([r \in 1..R |-> sc[e.one[j][r]]]), ZMul(Z(R), sc[e.base[1]]))
  IN IF Maximised(case.metric) THEN ZNeg(d) ELSE d

Err(case, e) ==
  LET x == e.x
      y == e.y
      n == Len(x)
  IN
  IF e.err # "" THEN "error " \o e.err
  ELSE IF ~Aligned(case, x, y) THEN "sampled rows and their targets"
  ELSE IF e.hint # "" THEN "evaluations do not match: " \o e.hint
  ELSE IF Len(e.base) = 0 \/ (\E b \in 1..Len(e.base) : e.q[e.base[b]] # x) THEN "reference score not on the intact data"
  ELSE IF ~Partition(e) THEN "evaluations beyond the required ones"
  ELSE LET sc == TLCEval([k \in 1..Len(e.q) |-> Score(case, e.q[k], y)])
           sd == TLCEval(ScoreDen(case, n))
       IN
  IF Has(case, "C09") /\ e.kind = "fit" /\ ~CompletePairs(e.ovo, e.fs) THEN "pairs of the table"
  ELSE IF Has(case, "C09") /\ \E j \in 1..Len(e.tri) : Len(e.tri[j]) # e.R THEN "number of repeats of a pair"
  ELSE IF Has(case, "C09") /\ \E j \in 1..Len(e.tri), r \in 1..e.R :
            LET t == e.tri[j][r] f == e.ovo[j][1] g == e.ovo[j][2]
            IN ~(/\ OnlyCols(x, e.q[t[1]], {f}, case.nf)
                 /\ OnlyCols(x, e.q[t[2]], {g}, case.nf)
                 /\ OnlyCols(x, e.q[t[3]], {f, g}, case.nf)
                 /\ Together(x, e.q[t[3]], {f, g}))
       THEN "an evaluation of a pair does not shuffle exactly its columns together"
  ELSE IF Has(case, "C09") /\ case.uniq /\
          \E a, b \in {<<j, r, k>> : j \in 1..Len(e.tri), r \in 1..e.R, k \in 1..3} :
             LET P(u) == PermOf(x, e.q[e.tri[u[1]][u[2]][u[3]]],
                                IF u[3] = 2 THEN e.ovo[u[1]][2] ELSE e.ovo[u[1]][1])
             IN a # b /\ P(a) = P(b)
       THEN "a permutation was used again"
  ELSE IF Has(case, "C09") /\ \E j \in 1..Len(e.ovo) :
            ~Near(e.ovo[j][3], PairScore(case, e, sc, j), NMul(sd, NFromInt(e.R)))
       THEN "interaction value of a pair"
  ELSE IF Has(case, "C10") /\ ~CompleteFeats(e.imp, e.fs) THEN "features of the importance table"
  ELSE IF Has(case, "C10") /\ \E j \in 1..Len(e.one) : Len(e.one[j]) # e.R THEN "number of repeats of a feature"
  ELSE IF Has(case, "C10") /\ \E j \in 1..Len(e.one) : \E r \in 1..Len(e.one[j]) :
            ~OnlyCols(x, e.q[e.one[j][r]], {e.imp[j][1]}, case.nf)
       THEN "an evaluation does not shuffle exactly the one column"
  ELSE IF Has(case, "C10") /\ \E j \in 1..Len(e.imp) :
            ~Near(e.imp[j][2], ImpScore(case, e, sc, j), NMul(sd, NFromInt(e.R)))
       THEN "importance value"
  ELSE ""

Start(case) == 0
Step(case, s, e) == [err |-> Err(case, e), st |-> s]
Cases == ndJsonDeserialize(IOEnv.VCASES)
INSTANCE TraceBase
=============================================================================
