------------------------------ MODULE Session ------------------------------
(* Recorded sessions: calculators are created, filled directly or by fits of *)
(* partial-dependence-based explanations, shared, and sometimes mismatched.  *)
(* Specification state: for every calculator what it was built for and which *)
(* values it knows; for every explanation object its last tables.            *)
EXTENDS Explain, IOUtils, Json
VARIABLES i, pos, st, done

Has(case, a) == \E j \in 1..Len(case.asp) : case.asp[j] = a
Data(case, d) == case.datas[d]
\* the quantity explained: custom function, else probability, else plain prediction
Source(case, m, custom) == IF custom THEN "custom" ELSE IF case.models[m].hasproba THEN "proba" ELSE "predict"
TableOf(case, d, m, src) ==
  [n |-> Data(case, d).n, nf |-> Data(case, d).nf, lev |-> Data(case, d).lev,
   rows |-> Data(case, d).rows, num |-> Data(case, d).num,
   terms |-> case.models[m][src][d], den |-> case.models[m].den]

Start(case) == [calcs |-> <<>>, objs |-> [o \in 1..case.nobj |-> <<>>]]

----------------------------------------------------------------------------
\* observed calculator contents
ObsVal(ob, k) == CASE k[1] = "s" -> ob.s[k[2]][k[3]]
                   [] k[1] = "p" -> ob.p[k[2]][k[3]][k[4]][k[5]]
                   [] k[1] = "m" -> ob.m[k[2]][k[3]]
ShapeOK(t, ob) == /\ Len(ob.s) = t.nf /\ Len(ob.m) = t.nf /\ Len(ob.p) = t.nf
                  /\ \A f \in Feats(t) : /\ Len(ob.s[f]) = t.lev[f] /\ Len(ob.m[f]) = t.n
                                         /\ \A g \in Feats(t) : f < g =>
                                              /\ Len(ob.p[f][g]) = t.lev[f]
                                              /\ \A v \in Levels(t, f) : Len(ob.p[f][g][v]) = t.lev[g]
AllKeysOf(t) == UNION ({KeysS(t, f) : f \in Feats(t)} \cup {KeysM(t, f) : f \in Feats(t)}
                       \cup {KeysP(t, p[1], p[2]) : p \in {q \in Feats(t) \X Feats(t) : q[1] < q[2]}})
KnownObs(t, ob) == {k \in AllKeysOf(t) : ~IsNaN(ObsVal(ob, k))}
BadKeys(t, ob, known) == {k \in known : ~ExactInt(ObsVal(ob, k), PDKey(t, k), U(t))}
\* look-ups by value: <<features, values, result>>, pairs in either order of naming
LookOK(t, known, l) ==
  LET k == IF Len(l.f) = 1 THEN <<"s", l.f[1], l.v[1]>>
           ELSE IF l.f[1] < l.f[2] THEN <<"p", l.f[1], l.f[2], l.v[1], l.v[2]>>
           ELSE <<"p", l.f[2], l.f[1], l.v[2], l.v[1]>>
  IN IF k \in known THEN ExactInt(l.o, PDKey(t, k), U(t)) ELSE IsNaN(l.o)

\* the contents of a calculator after an event that may set what lies between lo and hi
ObsErr(case, t, ob, looks, lo, hi) ==
  IF ~case.useobs THEN ""
  ELSE IF ~ShapeOK(t, ob) THEN "shape of the partial dependence values"
  ELSE LET kn == TLCEval(KnownObs(t, ob))
           bad == TLCEval(BadKeys(t, ob, kn))
       IN IF ~(lo \subseteq kn) THEN "requested value unset " \o ToString(CHOOSE k \in lo \ kn : TRUE)
          ELSE IF ~(kn \subseteq hi) THEN "value set that was not requested " \o ToString(CHOOSE k \in kn \ hi : TRUE)
          ELSE IF bad # {} THEN "wrong partial dependence " \o ToString(CHOOSE k \in bad : TRUE)
          ELSE IF \E j \in 1..Len(looks) : ~LookOK(t, kn, looks[j]) THEN "wrong look-up"
          ELSE ""

OnlySource(e, src) == \A j \in 1..Len(e.srcs) : e.srcs[j] = src

----------------------------------------------------------------------------
\* bag of rows asked for equals one copy of the data per newly known value, plus extra copies of
\* the data itself (reference predictions)
BagOK(t, new, extra, codes) ==
  LET ks == SetToSeq(new)
      own == [j \in 1..t.n |-> RowCode(t, t.rows[j])]
      want == Flat([j \in 1..Len(ks) |-> [r \in 1..t.n |-> RowCode(t, KeyRow(t, ks[j], r))]], 1, <<>>)
  IN SortInts(codes) = SortInts(want \o Flat([j \in 1..extra |-> own], 1, <<>>))

OpErr(case, t, cl, e) ==
  LET want == TLCEval(Requested(t, e.o))
  IN IF e.err # "" /\ ~e.fault THEN "error " \o e.err
     ELSE IF e.fault /\ e.err = "" THEN "failing model query was swallowed"
     ELSE LET oe == ObsErr(case, t, e.obs, e.looks,
                           IF e.fault THEN cl.known ELSE cl.known \cup want, cl.known \cup want)
          IN IF oe # "" THEN oe
     ELSE IF Has(case, "C03") /\ ~e.fault /\ ~LengthsOK(t, cl.bs, e.o, cl.known, e.lens)
          THEN "query lengths " \o ToString(e.lens) \o " for " \o ToString(Cardinality(want \ cl.known))
               \o " unknown values, batch size " \o ToString(cl.bs)
     ELSE IF Has(case, "C03") /\ ~e.fault /\ ~BagOK(t, want \ cl.known, 0, e.codes) THEN "rows of the queries"
     ELSE IF Has(case, "C03") /\ e.fault /\ SumSeq(e.lens) > t.n * Cardinality(want \ cl.known)
          THEN "failed calculation asked for too much"
     ELSE IF (Has(case, "C22") \/ Has(case, "C01")) /\ ~OnlySource(e, cl.src) THEN "prediction source"
     ELSE ""

----------------------------------------------------------------------------
\* clauses about the tables of a fit
PairErr(case, t, e, a, OK(_, _, _)) ==
  IF ~(Has(case, a) \/ Has(case, "C02") \/ Has(case, "C22")) THEN ""
  ELSE IF ~CompletePairs(e.res.ovo, e.fs) THEN "pairs of the table"
  ELSE LET bad == {j \in 1..Len(e.res.ovo) :
                    LET p == Ordered(<<e.res.ovo[j][1], e.res.ovo[j][2]>>)
                    IN ~OK(p[1], p[2], e.res.ovo[j][3])}
       IN IF bad = {} THEN "" ELSE "interaction value of pair " \o ToString(e.res.ovo[CHOOSE j \in bad : TRUE])
OvaErr(case, t, e) ==
  IF ~(Has(case, "C05") \/ Has(case, "C02") \/ Has(case, "C22")) THEN ""
  ELSE IF ~e.ova THEN IF e.res.hasova THEN "one-vs-all table that was not asked for" ELSE ""
  ELSE IF ~CompleteFeats(e.res.ova, e.fs) THEN "features of the one-vs-all table"
  ELSE LET bad == {j \in 1..Len(e.res.ova) : ~HOneOK(t, e.res.ova[j][1], e.norm, e.res.ova[j][2])}
       IN IF bad # {} THEN "one-vs-all value of " \o ToString(e.res.ova[CHOOSE j \in bad : TRUE])
          ELSE IF ~SortedDown(Col(e.res.ova, 2)) THEN "order of the one-vs-all table" ELSE ""
ImpErr(case, t, e) ==
  IF ~(Has(case, "C07") \/ Has(case, "C02") \/ Has(case, "C22")) THEN ""
  ELSE IF ~CompleteFeats(e.res.imp, e.fs) THEN "features of the importance table"
  ELSE LET bad == {j \in 1..Len(e.res.imp) : ~ImpOK(t, e.res.imp[j][1], e.res.imp[j][2])}
       IN IF bad = {} THEN "" ELSE "importance of " \o ToString(e.res.imp[CHOOSE j \in bad : TRUE])
AddErr(case, t, e) ==
  IF ~(Has(case, "C08") \/ Has(case, "C02") \/ Has(case, "C22")) THEN ""
  ELSE IF ~AddIndexOK(t, e.res.index) THEN "additivity index"
  ELSE IF ~AddRowsOK(t, e.res.full, e.res.cent) THEN "additivity per-row table"
  ELSE ""
First(a, b) == IF a # "" THEN a ELSE b
ResErr(case, t, e) ==
  CASE e.meth = "H" -> First(PairErr(case, t, e, "C04", LAMBDA f, g, o : HPairOK(t, f, g, e.norm, o)),
                             First(OvaErr(case, t, e), ImpErr(case, t, e)))
    [] e.meth = "G" -> First(PairErr(case, t, e, "C06", LAMBDA f, g, o : GreenwellOK(t, f, g, o)),
                             ImpErr(case, t, e))
    [] e.meth = "I" -> ImpErr(case, t, e)
    [] e.meth = "A" -> AddErr(case, t, e)

\* what a fit needs to know
AllFs(t)  == [f \in 1..t.nf |-> f]
PairSeq(fs) == SetToSeq(PairsOf(fs))
Needs(t, e) ==
  CASE e.meth = "H" -> Requested(t, [op |-> "pairs", ps |-> PairSeq(e.fs), all |-> FALSE])
                       \cup Requested(t, [op |-> "single", fs |-> e.fs])
                       \cup (IF e.ova THEN Requested(t, [op |-> "minus", fs |-> e.fs]) ELSE {})
    [] e.meth = "G" -> Requested(t, [op |-> "pairs", ps |-> PairSeq(e.fs), all |-> TRUE])
                       \cup Requested(t, [op |-> "single", fs |-> e.fs])
    [] e.meth = "I" -> Requested(t, [op |-> "single", fs |-> e.fs])
    [] e.meth = "A" -> Requested(t, [op |-> "single", fs |-> AllFs(t)])
\* reference predictions for the data itself
Refs(e) == IF e.meth = "A" \/ (e.meth = "H" /\ e.ova) THEN 1 ELSE 0

\* cl: the calculator the fit works on (a fresh one knows nothing)
FitErr(case, t, cl, e) ==
  LET need == TLCEval(Needs(t, e))
      most == need \cup Requested(t, [op |-> "single", fs |-> AllFs(t)])
      kn   == IF case.useobs THEN TLCEval(KnownObs(t, e.obs)) ELSE {}
  IN IF e.err # "" THEN "error " \o e.err
     ELSE LET re == ResErr(case, t, e) IN IF re # "" THEN re
     ELSE LET oe == ObsErr(case, t, e.obs, e.looks, cl.known \cup need, cl.known \cup most)
          IN IF oe # "" THEN oe
     ELSE IF Has(case, "C03") /\ ~BagOK(t, kn \ cl.known, Refs(e), e.codes)
          THEN "queries of the fit: " \o ToString(SumSeq(e.lens)) \o " rows for "
               \o ToString(Cardinality(kn \ cl.known)) \o " new values and " \o ToString(Refs(e)) \o " reference queries"
     ELSE IF Has(case, "C22") /\ ~OnlySource(e, cl.src) THEN "prediction source"
     ELSE ""

----------------------------------------------------------------------------
StepCalc(case, s, e) ==
  LET src == Source(case, e.m, e.custom)
      t   == TableOf(case, e.d, e.m, src)
      err == IF e.err # "" THEN "error " \o e.err ELSE ObsErr(case, t, e.obs, <<>>, {}, {})
  IN [err |-> err, st |-> [s EXCEPT !.calcs = Append(@, [d |-> e.d, m |-> e.m, src |-> src, bs |-> e.bs, known |-> {}])]]

StepOp(case, s, e) ==
  LET cl == s.calcs[e.k]
      t  == TableOf(case, cl.d, cl.m, cl.src)
      er == OpErr(case, t, cl, e)
  IN [err |-> er, st |-> IF er # "" THEN s ELSE [s EXCEPT !.calcs[e.k].known =
        IF case.useobs THEN KnownObs(t, e.obs) ELSE @ \cup Requested(t, e.o)]]

\* a calculator is accepted iff it was built for this model and equal data
Match(s, e) == e.k = 0 \/ (s.calcs[e.k].m = e.m /\ s.calcs[e.k].d = e.d)
StepFit(case, s, e) ==
  IF ~Match(s, e)
  THEN IF e.err # "ValueError" THEN [err |-> "mismatching calculator gave " \o (IF e.err = "" THEN "no error" ELSE e.err), st |-> s]
       ELSE IF e.res # s.objs[e.obj] /\ s.objs[e.obj] # <<>> THEN [err |-> "rejected fit changed the object's results", st |-> s]
       ELSE IF Len(e.lens) > 0 THEN [err |-> "rejected fit queried the model", st |-> s]
       ELSE [err |-> "", st |-> s]
  ELSE LET cl == IF e.k > 0 THEN s.calcs[e.k]
                 ELSE [d |-> e.d, m |-> e.m, src |-> Source(case, e.m, e.custom), bs |-> e.bs, known |-> {}]
           t  == TableOf(case, cl.d, cl.m, cl.src)
           er == FitErr(case, t, cl, e)
       IN [err |-> er,
           st  |-> IF er # "" THEN s
                   ELSE [s EXCEPT !.objs[e.obj] = e.res,
                                  !.calcs = IF e.k > 0 /\ case.useobs THEN [@ EXCEPT ![e.k].known = KnownObs(t, e.obs)] ELSE @]]

Step(case, s, e) == CASE e.e = "calc" -> StepCalc(case, s, e)
                      [] e.e = "op"   -> StepOp(case, s, e)
                      [] e.e = "fit"  -> StepFit(case, s, e)
Cases == ndJsonDeserialize(IOEnv.VCASES)
INSTANCE TraceBase
=============================================================================
