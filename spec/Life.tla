-------------------------------- MODULE Life --------------------------------
(* Recorded histories of explanation objects.  The specification's state has *)
(* for every object the tables of its latest successful fit, and for the     *)
(* caller's things (data, targets, models, feature lists, calculators' data) *)
(* and all result tables a fingerprint.                                      *)
EXTENDS LifeDef, IOUtils, Json
VARIABLES i, pos, st, done

Has(case, a) == \E j \in 1..Len(case.asp) : case.asp[j] = a
Empty == [fit |-> 0, ovo |-> <<>>, occ |-> <<>>, hasova |-> 0, ova |-> <<>>, imp |-> <<>>, x |-> <<>>]
Start(case) == [tab |-> [k \in 1..Len(case.cls) |-> Empty], asc |-> [k \in 1..Len(case.cls) |-> FALSE], fp |-> case.fp0]

\* the fingerprints of object k's own tables
Own(case, k) == (case.nthings + 6 * (k - 1) + 1)..(case.nthings + 6 * k)
\* the values held by the objects' calculators
Calcs(case)  == (case.nthings + 6 * Len(case.cls) + 1)..(case.nthings + 7 * Len(case.cls))
FitLike(e) == e.e \in {"fit", "bad"}

C15Err(case, s, e) ==
  IF e.e = "fit" /\ e.err = "" THEN
     IF ~PairsComplete(e.c, e.tab.ovo, e.fs) THEN "rows of the pair table"
     ELSE IF ~Order(e.c, e.asc = 1, e.tab.ovo, e.tab.occ) THEN "order of the pair table"
     ELSE IF e.tab.hasova = 1 /\ (~CompleteFeats(e.tab.ova, e.fs) \/ ~SortedDown(Col(e.tab.ova, 2))) THEN "one-vs-all table"
     ELSE IF ~ImpComplete(e.c, e.tab.imp, e.fs) THEN "rows of the importance table"
     ELSE IF ~(IF e.iasc = 1 THEN SortedUp(Col(e.tab.imp, 2)) ELSE SortedDown(Col(e.tab.imp, 2))) THEN "order of the importance table"
     ELSE IF e.tab.num # 1 THEN "row labels of the tables"
     ELSE ""
  ELSE ""

\* look-ups against the tables the specification holds
LookErr(case, s, e, t, asc) ==
  IF \E j \in 1..Len(e.looks) :
       LET l == e.looks[j] IN
       IF t.fit = 0 THEN l[4] # NotFitted
       ELSE PairRows(t.ovo, l[1], l[2]) # {} /\ (l[4] # "" \/ ~LookOK(e.c, asc, t.ovo, l[1], l[2], l[3]))
  THEN "looked-up value" ELSE ""

\* plots and comparisons show what a fresh object with only the latest successful fit shows
RefErr(e) == IF e.hasref = 1 /\ e.d1 # e.d3 THEN "shows something else than a fresh object" ELSE ""
C16Err(case, s, e) ==
  LET t == s.tab[e.o] IN
  CASE e.e = "fit" -> IF e.c \in {"H", "G", "C", "B", "I", "A"} /\ ~SameTables(e.c, e.tab, e.ref) THEN "tables differ from those of a fresh object"
                      ELSE IF e.tab.fit # 1 THEN "no results after a fit" ELSE ""
    [] e.e = "bad" -> IF e.err = "" THEN "fit was not rejected"
                      ELSE IF ~Identical(e.tab, t) THEN (IF e.crash = 1 THEN "a failed fit changed the results" ELSE "a rejected fit changed the results") ELSE ""
    [] e.e = "plot" /\ e.c \in Interaction ->
         LET ok == PlotErrors(e.c, t.fit = 1, t.hasova = 1, e.vis)
         IN IF ok = {""} THEN RefErr(e)
            ELSE IF e.err = "" THEN "plot without the required error"
            ELSE IF "error" \notin ok /\ e.err \notin ok THEN "wrong error " \o e.err
            ELSE IF e.figs # 0 THEN "something was drawn" ELSE ""
    [] e.e = "prof" /\ e.c \in {"H", "G"} ->
         IF t.fit = 0 THEN IF e.err # NotFitted THEN "profile of an object that is not fitted: " \o e.err
                           ELSE IF e.figs # 0 THEN "something was drawn" ELSE ""
         ELSE RefErr(e)
    [] e.e = "cmp" /\ e.c \in Interaction /\ e.c2 \in Interaction ->
         IF t.fit = 0 \/ s.tab[e.o2].fit = 0
         THEN IF e.err # NotFitted THEN "comparison of an object that is not fitted: " \o e.err
              ELSE IF e.figs # 0 THEN "something was drawn" ELSE ""
         ELSE RefErr(e)
    [] OTHER -> ""

C17Err(case, s, e) ==
  IF ~FitLike(e) THEN ""
  ELSE IF e.e = "fit" /\ e.samp = 1 /\ ~SampleOK(case.rows, case.ix, case.y, e.n, e.x, e.ix, e.y, e.c = "S") THEN "sampled rows"
  \* the model is asked about the sample only: shuffled (S), or copies of it with some columns replaced
  ELSE IF e.e = "fit" /\ e.samp = 1 /\ \E j \in 1..Len(e.lens) :
            IF e.c = "S" THEN e.lens[j] # Len(e.x) ELSE e.lens[j] % Len(e.x) # 0 THEN "rows used besides the sampled ones"
  ELSE IF e.err # e.twin.err THEN "another object with the same random state fails differently"
  ELSE IF e.c = "I" THEN ""           \* has no random state of its own
  ELSE IF e.x # e.twin.X \/ e.ix # e.twin.I \/ e.y # e.twin.Y THEN "another object with the same random state has another sample"
  ELSE IF ~Identical(e.tab, e.twin) THEN "another object with the same random state has other results"
  ELSE ""

C18Err(case, s, e) ==
  LET allowed == IF FitLike(e) THEN Own(case, e.o) \cup Calcs(case) ELSE {}
      bad == {j \in 1..Len(e.fp) : e.fp[j] # s.fp[j] /\ j \notin allowed}
  IN IF bad # {} THEN LET j == Min(bad) IN "changed: " \o (IF j <= case.nthings THEN case.fpn[j] ELSE "a result table")
     ELSE IF e.d1 # e.d2 THEN "repeating the call gives something else"
     ELSE ""

Unexpected(case, s, e) == e.e = "fit" /\ e.err # ""
Step(case, s, e) ==
  LET t2   == IF e.e = "fit" THEN e.tab ELSE s.tab[e.o]
      asc2 == IF e.e = "fit" THEN e.asc = 1 ELSE s.asc[e.o]
      err  == IF Unexpected(case, s, e) THEN "error " \o e.err
              ELSE IF Has(case, "C15") THEN LET a == C15Err(case, s, e) IN IF a # "" THEN a ELSE LookErr(case, s, e, t2, asc2)
              ELSE IF Has(case, "C16") THEN LET a == C16Err(case, s, e) IN IF a # "" THEN a ELSE LookErr(case, s, e, t2, asc2)
              ELSE IF Has(case, "C17") THEN C17Err(case, s, e)
              ELSE C18Err(case, s, e)
  IN [err |-> err, st |-> [tab |-> [s.tab EXCEPT ![e.o] = t2], asc |-> [s.asc EXCEPT ![e.o] = asc2], fp |-> e.fp]]

Cases == ndJsonDeserialize(IOEnv.VCASES)
INSTANCE TraceBase
=============================================================================
