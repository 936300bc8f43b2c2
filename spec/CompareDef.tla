----------------------------- MODULE CompareDef -----------------------------
(* Rank correlations of two methods over the feature pairs both of them      *)
(* value.  u and v are sequences of comparable integers (the pairs' values   *)
(* or codes of them), a and b tell whether smaller is stronger.              *)
EXTENDS LifeDef

\* twice the average rank by strength: strongest 2, ties share
Rank2(u, a) == [j \in 1..Len(u) |->
   LET better == Cardinality({k \in 1..Len(u) : IF a THEN u[k] < u[j] ELSE u[k] > u[j]})
       equal  == Cardinality({k \in 1..Len(u) : u[k] = u[j]})
   IN 2 * better + equal + 1]
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Cross(x, y) == Len(x) * SumSeq([j \in 1..Len(x) |-> x[j] * y[j]]) - SumSeq(x) * SumSeq(y)
PairsIJ(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
KenSum(x, y) == FoldSet(LAMBDA p, acc : acc + Sgn(x[p[1]] - x[p[2]]) * Sgn(y[p[1]] - y[p[2]]), 0, PairsIJ(Len(x)))
\* a correlation is the triple <<p, q1, q2>>: p / sqrt(q1 * q2), undefined when q1 * q2 = 0
Pearson(x, y) == <<Cross(x, y), Cross(x, x), Cross(y, y)>>
Kendall(x, y) == <<KenSum(x, y), KenSum(x, x), KenSum(y, y)>>
Corr(kind, u, a, v, b) ==
  LET x == Rank2(u, a)
      y == Rank2(v, b)
  IN IF kind = "kendall" THEN Kendall(x, y)
     ELSE IF kind = "pearson" THEN Pearson(x, y)
     ELSE Pearson(Rank2([j \in 1..Len(x) |-> -x[j]], FALSE), Rank2([j \in 1..Len(y) |-> -y[j]], FALSE))
\* logged number o is that correlation
CorrOK(o, c) ==
  IF c[2] = 0 \/ c[3] = 0 THEN ~IsFinite(o)
  ELSE /\ IsFinite(o)
       /\ (c[1] # 0 /\ o[1] # 0) => (o[1] > 0) = (c[1] > 0)
       /\ NearSqrt(IF o[1] < 0 THEN <<1>> \o Tail(o) ELSE o, NSqInt(c[1]), NMul(NFromInt(c[2]), NFromInt(c[3])))
=============================================================================
