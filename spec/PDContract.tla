----------------------------- MODULE PDContract -----------------------------
(* What one partial dependence calculation may ask for and must leave        *)
(* behind.  Used twice: PDCalc checks that the batching algorithm satisfies  *)
(* it in every reachable state, PDTrace and Session check that the real code *)
(* does on recorded executions.                                              *)
EXTENDS Tab

(* A request op is a record:                                                 *)
(*   [op |-> "single", fs |-> sequence of features]                          *)
(*   [op |-> "pairs",  ps |-> sequence of <<f, g>>, all |-> BOOLEAN]         *)
(*   [op |-> "minus",  fs |-> sequence of features]                          *)
Ordered(p) == IF p[1] < p[2] THEN p ELSE <<p[2], p[1]>>
Requested(c, o) ==
  CASE o.op = "single" -> UNION {KeysS(c, o.fs[i]) : i \in 1..Len(o.fs)}
    [] o.op = "minus"  -> UNION {KeysM(c, o.fs[i]) : i \in 1..Len(o.fs)}
    [] o.op = "pairs"  -> UNION {LET p == Ordered(o.ps[i])
                                 IN IF o.all THEN KeysP(c, p[1], p[2])
                                             ELSE KeysD(c, p[1], p[2]) : i \in 1..Len(o.ps)}

\* the largest unit of work that is collected before the batch size is looked at, in values
UnitMax(c, o, unknown) ==
  IF unknown = {} THEN 0
  ELSE IF o.op = "pairs" THEN 1
  ELSE MaxSeq([i \in 1..Len(o.fs) |->
                 Cardinality({k \in unknown : k[2] = o.fs[i]})])

RECURSIVE AllBut(_, _, _)
AllBut(P(_), q, i) == IF i >= Len(q) THEN TRUE ELSE P(q[i]) /\ AllBut(P, q, i + 1)

\* the lengths of the queries of one completed calculation
LengthsOK(c, bs, o, known, lens) ==
  LET unknown == Requested(c, o) \ known
      u == UnitMax(c, o, unknown)
      Big(l) == l > bs
  IN /\ SumSeq(lens) = c.n * Cardinality(unknown)
     /\ AllBut(Big, lens, 1)
     /\ \A i \in 1..Len(lens) : lens[i] > 0 /\ lens[i] <= Max2(bs, 0) + u * c.n

\* the bag of rows asked for: one copy of the data per unknown value, nothing else
RECURSIVE Flat(_, _, _)
Flat(q, i, acc) == IF i > Len(q) THEN acc ELSE Flat(q, i + 1, acc \o q[i])
Expand(c, keys) == Flat(SetToSeq({<<k, [i \in 1..c.n |-> RowCode(c, KeyRow(c, k, i))]>> : k \in keys}), 1, <<>>)
SortInts(q) == SortSeq(q, LAMBDA a, b : a < b)
RowsOK(c, o, known, codes) ==
  LET unknown == Requested(c, o) \ known
      want == Flat([j \in 1..Cardinality(unknown) |->
                      LET k == SetToSeq(unknown)[j]
                      IN [i \in 1..c.n |-> RowCode(c, KeyRow(c, k, i))]], 1, <<>>)
  IN SortInts(codes) = SortInts(want)
=============================================================================
