-------------------------------- MODULE Tab --------------------------------
(* Data sets and models as finite tables, and the *definitions* of partial   *)
(* dependence over them.                                                     *)
(*                                                                           *)
(* A table record c has                                                      *)
(*   c.n     number of reference rows        c.nf   number of features       *)
(*   c.lev   levels per feature (distinct values that occur, in sort order)  *)
(*   c.rows  the rows, each a sequence of level codes 1..lev[f]              *)
(*   c.terms the model: a sequence of [v |-> features, t |-> integers];      *)
(*           a row's prediction is the sum over the terms of the entry of t  *)
(*           selected by the row's codes of the features v (mixed radix).    *)
(* Every function of finitely many discrete features is such a sum.          *)
EXTENDS Num

RECURSIVE TermIdx(_, _, _, _, _)
TermIdx(c, v, row, i, acc) ==
  IF i > Len(v) THEN acc + 1
  ELSE TermIdx(c, v, row, i + 1, acc * c.lev[v[i]] + (row[v[i]] - 1))
RECURSIVE PredictR(_, _, _, _)
PredictR(c, row, k, acc) ==
  IF k > Len(c.terms) THEN acc
  ELSE PredictR(c, row, k + 1,
         acc + c.terms[k].t[TermIdx(c, c.terms[k].v, row, 1, 0)])
Predict(c, row) == PredictR(c, row, 1, 0)

RECURSIVE SumRows(_, _, _, _)
SumRows(F(_), n, i, acc) == IF i > n THEN acc ELSE SumRows(F, n, i + 1, acc + F(i))

\* n times the partial dependence: the reference rows with features replaced
Sub1(c, f, v, i)       == [c.rows[i] EXCEPT ![f] = v]
Sub2(c, f, g, v, w, i) == [c.rows[i] EXCEPT ![f] = v, ![g] = w]
SubM(c, f, j, i)       == [c.rows[j] EXCEPT ![f] = c.rows[i][f]]
PD1(c, f, v)       == LET F(i) == Predict(c, Sub1(c, f, v, i))       IN SumRows(F, c.n, 1, 0)
PD2(c, f, g, v, w) == LET F(i) == Predict(c, Sub2(c, f, g, v, w, i)) IN SumRows(F, c.n, 1, 0)
PDM(c, f, j)       == LET F(i) == Predict(c, SubM(c, f, j, i))       IN SumRows(F, c.n, 1, 0)

Feats(c)  == 1..c.nf
\* keys of partial dependence values: <<"s",f,v>>, <<"p",f,g,v,w>> with f < g, <<"m",f,i>>
KeysS(c, f)    == {<<"s", f, v>> : v \in 1..c.lev[f]}
KeysP(c, f, g) == {<<"p", f, g, v, w>> : v \in 1..c.lev[f], w \in 1..c.lev[g]}
KeysD(c, f, g) == {<<"p", f, g, c.rows[i][f], c.rows[i][g]>> : i \in 1..c.n}
KeysM(c, f)    == {<<"m", f, i>> : i \in 1..c.n}
\* the rows the model has to be asked for one key
KeyRow(c, k, i) == CASE k[1] = "s" -> Sub1(c, k[2], k[3], i)
                     [] k[1] = "p" -> Sub2(c, k[2], k[3], k[4], k[5], i)
                     [] k[1] = "m" -> SubM(c, k[2], k[3], i)
KeyRows(c, k) == [i \in 1..c.n |-> KeyRow(c, k, i)]
PDKey(c, k)   == LET F(i) == Predict(c, KeyRow(c, k, i)) IN SumRows(F, c.n, 1, 0)

\* mixed-radix code of a row (0-based)
RECURSIVE RowCodeR(_, _, _, _)
RowCodeR(c, row, f, acc) == IF f > c.nf THEN acc
                            ELSE RowCodeR(c, row, f + 1, acc * c.lev[f] + (row[f] - 1))
RowCode(c, row) == RowCodeR(c, row, 1, 0)
=============================================================================
