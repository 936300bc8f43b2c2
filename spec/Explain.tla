------------------------------ MODULE Explain ------------------------------
(* The definitions of the explanations that are built on partial dependence: *)
(* Friedman's H (pairs and one-vs-all), Greenwell's measure, the partial     *)
(* dependence based importance and the additivity index.  t is a table       *)
(* record (Tab) that additionally has                                        *)
(*   t.den  the common denominator of the model's predictions                *)
(*   t.num  for every feature whether it is numeric                          *)
(* All partial dependences below are integers scaled by n * den.             *)
EXTENDS PDContract

U(t) == t.n * t.den
Levels(t, f) == 1..t.lev[f]

\* n * (x - mean(x)) for a sequence x over the rows
Centre(t, x) == LET s == SumSeq(x) IN [i \in 1..t.n |-> t.n * x[i] - s]
At1(t, f)    == LET p == TLCEval([v \in Levels(t, f) |-> PD1(t, f, v)])
                IN [i \in 1..t.n |-> p[t.rows[i][f]]]
At2(t, f, g) == [i \in 1..t.n |-> PD2(t, f, g, t.rows[i][f], t.rows[i][g])]
AtM(t, f)    == [i \in 1..t.n |-> PDM(t, f, i)]
AtAll(t)     == [i \in 1..t.n |-> t.n * Predict(t, t.rows[i])]

\* numerator and denominator of the H statistic of two effects against a joint effect
HNum(t, a, b, j) == LET ca == TLCEval(Centre(t, a))
                        cb == TLCEval(Centre(t, b))
                        cj == TLCEval(Centre(t, j))
                    IN SumSqInt([i \in 1..t.n |-> cj[i] - ca[i] - cb[i]])
HDen(t, j)       == SumSqInt(Centre(t, j))
\* the value o is the H statistic; where the joint effect does not vary the ratio is undefined,
\* except that nothing varying at all means no interaction
HOK(t, a, b, j, norm, o) ==
  LET num == TLCEval(HNum(t, a, b, j))
      den == TLCEval(HDen(t, j))
  IN IF norm
     THEN IF den = <<>> THEN (num = <<>> => o[1] = 0)
          ELSE Near(o, ZN(num), den)
     ELSE NearSqrt(o, num, NMul(NFromInt(t.n), NSqInt(t.n * U(t))))
\* a, b, j are rows of integers: force them once
HPairOK(t, f, g, norm, o) == HOK(t, TLCEval(At1(t, f)), TLCEval(At1(t, g)), TLCEval(At2(t, f, g)), norm, o)
HOneOK(t, f, norm, o)     == HOK(t, TLCEval(At1(t, f)), TLCEval(AtM(t, f)), TLCEval(AtAll(t)), norm, o)

----------------------------------------------------------------------------
\* L * sum of squares - (sum)^2 of a sequence of integers: L^2 times its population variance
VarNum(x) == LET s == SumSeq(x)
             IN NSub(NMul(NFromInt(Len(x)), SumSqInt(x)), NSqInt(s))
PDOver(t, f) == [v \in Levels(t, f) |-> PD1(t, f, v)]
ImpOK(t, f, o) ==
  LET x == TLCEval(PDOver(t, f))
      L == Len(x)
  IN IF t.num[f] THEN NearSqrt(o, VarNum(x), NSqInt(L * U(t)))
     ELSE Near(o, Z(MaxSeq(x) - MinSeq(x)), NFromInt(4 * U(t)))

----------------------------------------------------------------------------
(* Greenwell.  CondImp(x, numeric) is the conditional importance along a     *)
(* profile x, as a natural number over the common denominator CondDen.       *)
CondDen(L, numeric)  == IF numeric THEN IF L > 1 THEN NShift(NFromInt(L * (L - 1)), SCALE) ELSE <<0, 0, 1>>
                        ELSE <<0, 0, 4>>
CondImp(x, numeric) ==
  IF numeric
  THEN IF Len(x) > 1 THEN RootNum(VarNum(x), NFromInt(Len(x) * (Len(x) - 1))) ELSE <<>>
  ELSE NShift(NFromInt(MaxSeq(x) - MinSeq(x)), SCALE)
\* sample standard deviation of K naturals, times K(K-1)
NStd(r) == LET K == Len(r)
               s == NSumSeq(r)
               q == NSumSeq([k \in 1..K |-> NMul(r[k], r[k])])
           IN IF K < 2 THEN <<>>
              ELSE NSqrt(NMul(NSub(NMul(NFromInt(K), q), NMul(s, s)), NFromInt(K * (K - 1))))
NStdDen(K) == IF K < 2 THEN <<1>> ELSE NFromInt(K * (K - 1))
GreenwellOK(t, f, g, o) ==
  LET M  == TLCEval([v \in Levels(t, f) |-> [w \in Levels(t, g) |-> PD2(t, f, g, v, w)]])
      cg == TLCEval([v \in Levels(t, f) |-> CondImp(M[v], t.num[g])])
      cf == TLCEval([w \in Levels(t, g) |-> CondImp([v \in Levels(t, f) |-> M[v][w]], t.num[f])])
      sg == TLCEval(NStd(cg))
      sf == TLCEval(NStd(cf))
      dg == TLCEval(NMul(NStdDen(t.lev[f]), CondDen(t.lev[g], t.num[g])))
      df == TLCEval(NMul(NStdDen(t.lev[g]), CondDen(t.lev[f], t.num[f])))
  IN Near(o, ZN(NAdd(NMul(sg, df), NMul(sf, dg))),
          NMul(NMul(dg, df), NFromInt(2 * U(t))))

----------------------------------------------------------------------------
(* Additivity *)
PredSum(t) == SumSeq([i \in 1..t.n |-> Predict(t, t.rows[i])])          \* n * mean, times den
AddIndexOK(t, o) ==
  LET m   == PredSum(t)
      s   == TLCEval([f \in Feats(t) |-> At1(t, f)])
      p   == TLCEval(AtAll(t))
      res == [i \in 1..t.n |-> p[i] - m - SumSeq([f \in Feats(t) |-> s[f][i] - m])]
      rss == TLCEval(SumSqInt(res))
      tss == TLCEval(SumSqInt([i \in 1..t.n |-> p[i] - m]))
  IN tss = <<>> \/ Near(o, ZSub(ZN(tss), ZN(rss)), tss)
AddRowsOK(t, full, cent) ==
  LET m == PredSum(t)
      s == TLCEval([f \in Feats(t) |-> At1(t, f)])
      p == TLCEval(AtAll(t))
  IN /\ Len(full) = t.n /\ Len(cent) = t.n
     /\ \A i \in 1..t.n : /\ NearInt(cent[i], p[i] - m, U(t))
                          /\ Len(full[i]) = t.nf
                          /\ \A f \in Feats(t) : NearInt(full[i][f], s[f][i] - m, U(t))

----------------------------------------------------------------------------
(* Tables of results: sequences of <<f, g, value>> or <<f, value>> *)
PairsOf(fs) == {p \in {<<fs[i], fs[j]>> : i, j \in 1..Len(fs)} : p[1] < p[2]}
TPairs(tab) == [i \in 1..Len(tab) |-> Ordered(<<tab[i][1], tab[i][2]>>)]
CompletePairs(tab, fs) == /\ Len(tab) = Cardinality(PairsOf(fs))
                          /\ {TPairs(tab)[i] : i \in 1..Len(tab)} = PairsOf(fs)
CompleteFeats(tab, fs) == /\ Len(tab) = Len(fs)
                          /\ {tab[i][1] : i \in 1..Len(tab)} = {fs[i] : i \in 1..Len(fs)}
\* strongest first: values never increase (or never decrease when smaller is stronger)
SortedDown(vals) == \A i \in 1..(Len(vals) - 1) : ~IsFinite(vals[i]) \/ ~IsFinite(vals[i+1]) \/ ObsLeq(vals[i + 1], vals[i])
SortedUp(vals)   == \A i \in 1..(Len(vals) - 1) : ~IsFinite(vals[i]) \/ ~IsFinite(vals[i+1]) \/ ObsLeq(vals[i], vals[i + 1])
Col(tab, k)      == [i \in 1..Len(tab) |-> tab[i][k]]
=============================================================================
