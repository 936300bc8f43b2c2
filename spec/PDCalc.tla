------------------------------- MODULE PDCalc -------------------------------
(* The partial dependence calculator: a cache of values that is filled by    *)
(* calculations which collect copies of the data into one growing frame,     *)
(* remember which block of it belongs to which value, and ask the model when *)
(* the frame outgrows the batch size.  Predictions are uninterpreted: the    *)
(* "mean" stored for a value is the sequence of rows it was averaged over,   *)
(* so a value is right iff that sequence is the one of its definition.       *)
(* The model may also fail on any query (Fault): the frame is lost and the   *)
(* calculation ends.                                                         *)
EXTENDS PDContract

CONSTANTS Table,       \* a table record (its model part is irrelevant)
          BatchSizes,  \* batch sizes to try
          MaxOps,      \* calculations per history
          MaxFaults    \* failing queries per history

VARIABLES bs, cache, req, pc, todo, frame, ranges, known0, op, lens, codes, nops, faults, failed
vars == <<bs, cache, req, pc, todo, frame, ranges, known0, op, lens, codes, nops, faults, failed>>

c == Table
AllKeys == UNION ({KeysS(c, f) : f \in Feats(c)} \cup {KeysM(c, f) : f \in Feats(c)}
                  \cup {KeysP(c, p[1], p[2]) : p \in {q \in Feats(c) \X Feats(c) : q[1] < q[2]}})
Unset == <<>>
Known == {k \in AllKeys : cache[k] # Unset}

FSeqs == {<<f>> : f \in Feats(c)} \cup {<<2, 1>>, <<1, 1>>, [i \in 1..c.nf |-> i]}
PSeqs == {<<p>> : p \in {q \in Feats(c) \X Feats(c) : q[1] # q[2]}}
         \cup {<< <<1, 2>>, <<3, 1>> >>, << <<2, 1>>, <<1, 2>> >>}
Ops == {[op |-> "single", fs |-> q] : q \in FSeqs}
       \cup {[op |-> "minus", fs |-> q] : q \in FSeqs}
       \cup {[op |-> "pairs", ps |-> q, all |-> b] : q \in PSeqs, b \in BOOLEAN}

Init == /\ bs \in BatchSizes
        /\ cache = [k \in AllKeys |-> Unset] /\ req = {} /\ pc = "idle"
        /\ todo = <<>> /\ frame = <<>> /\ ranges = <<>> /\ known0 = {}
        /\ op = [op |-> "none"] /\ lens = <<>> /\ codes = <<>>
        /\ nops = 0 /\ faults = 0 /\ failed = FALSE

\* units of work in the order of the request: a feature, or one pair of values
RECURSIVE CatSeq(_, _, _)
CatSeq(q, i, acc) == IF i > Len(q) THEN acc ELSE CatSeq(q, i + 1, acc \o q[i])
UnitsOf(o) ==
  CASE o.op = "single" -> [i \in 1..Len(o.fs) |-> [v \in 1..c.lev[o.fs[i]] |-> <<"s", o.fs[i], v>>]]
    [] o.op = "minus"  -> [i \in 1..Len(o.fs) |-> [j \in 1..c.n |-> <<"m", o.fs[i], j>>]]
    [] o.op = "pairs"  -> CatSeq([i \in 1..Len(o.ps) |->
           LET p == Ordered(o.ps[i]) IN
           IF o.all THEN [j \in 1..(c.lev[p[1]] * c.lev[p[2]]) |->
                  << <<"p", p[1], p[2], ((j - 1) \div c.lev[p[2]]) + 1, ((j - 1) % c.lev[p[2]]) + 1>> >>]
           ELSE [j \in 1..c.n |-> << <<"p", p[1], p[2], c.rows[j][p[1]], c.rows[j][p[2]]>> >>]], 1, <<>>)

Call == /\ pc = "idle" /\ nops < MaxOps
        /\ \E o \in Ops : /\ op' = o /\ todo' = UnitsOf(o)
                          /\ req' = req \cup Requested(c, o)
        /\ pc' = "collect" /\ known0' = Known /\ nops' = nops + 1
        /\ frame' = <<>> /\ ranges' = <<>> /\ lens' = <<>> /\ codes' = <<>> /\ failed' = FALSE
        /\ UNCHANGED <<bs, cache, faults>>

\* append one copy of the data per value of the unit, unless all of them are known
RECURSIVE Blocks(_, _, _, _)
Blocks(u, i, fr, rg) ==
  IF i > Len(u) THEN <<fr, rg>>
  ELSE Blocks(u, i + 1, fr \o KeyRows(c, u[i]),
              Append(rg, [k |-> u[i], from |-> Len(fr) + 1, to |-> Len(fr) + c.n]))
\* blocks are numbered: a value requested twice before its query is collected twice only if
\* the cache does not know it *and* it is not pending -- see Pending
Pending == {ranges[i].k : i \in 1..Len(ranges)}
Collect == /\ pc = "collect" /\ Len(todo) > 0
           /\ LET u == Head(todo)
                  skip == \A i \in 1..Len(u) : cache[u[i]] # Unset \/ u[i] \in Pending
                  b == Blocks(u, 1, frame, ranges)
              IN IF skip THEN UNCHANGED <<frame, ranges>> /\ pc' = pc
                 ELSE /\ frame' = b[1] /\ ranges' = b[2]
                      /\ pc' = IF Len(b[1]) > bs THEN "query" ELSE "collect"
           /\ todo' = Tail(todo)
           /\ UNCHANGED <<bs, cache, req, known0, op, lens, codes, nops, faults, failed>>

Query == /\ \/ pc = "query"
            \/ pc = "collect" /\ todo = <<>> /\ Len(frame) > 0
         /\ cache' = [k \in AllKeys |->
                IF k \in Pending
                THEN LET r == CHOOSE i \in 1..Len(ranges) : ranges[i].k = k
                     IN SubSeq(frame, ranges[r].from, ranges[r].to)
                ELSE cache[k]]
         /\ lens' = Append(lens, Len(frame))
         /\ codes' = codes \o [i \in 1..Len(frame) |-> RowCode(c, frame[i])]
         /\ frame' = <<>> /\ ranges' = <<>> /\ pc' = "collect"
         /\ UNCHANGED <<bs, req, todo, known0, op, nops, faults, failed>>

Fault == /\ faults < MaxFaults
         /\ \/ pc = "query"
            \/ pc = "collect" /\ todo = <<>> /\ Len(frame) > 0
         /\ faults' = faults + 1 /\ failed' = TRUE /\ pc' = "return"
         /\ frame' = <<>> /\ ranges' = <<>> /\ todo' = <<>>
         /\ UNCHANGED <<bs, cache, req, known0, op, lens, codes, nops>>

Finish == /\ pc = "collect" /\ todo = <<>> /\ Len(frame) = 0
          /\ pc' = "return"
          /\ UNCHANGED <<bs, cache, req, todo, frame, ranges, known0, op, lens, codes, nops, faults, failed>>
Return == /\ pc = "return" /\ pc' = "idle"
          /\ req' = IF failed THEN Known ELSE req
          /\ UNCHANGED <<bs, cache, todo, frame, ranges, known0, op, lens, codes, nops, faults, failed>>

Next == Call \/ Collect \/ Query \/ Fault \/ Finish \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Collect \/ Query \/ Finish \/ Return)

----------------------------------------------------------------------------
(* C01: whatever is in the cache is the definition, at every moment *)
Coherent == \A k \in AllKeys : cache[k] # Unset => cache[k] = KeyRows(c, k)
(* C01: exactly the requested values are set when a calculation returns *)
Complete == pc = "return" /\ ~failed => Known = req
Untouched == Known \subseteq req
(* C03: a completed calculation asked for each unknown value once, in batches *)
Economy == pc = "return" /\ ~failed =>
             /\ LengthsOK(c, bs, op, known0, lens)
             /\ RowsOK(c, op, known0, codes)
NoWaste == pc = "return" /\ failed => SumSeq(lens) <= c.n * Cardinality(Requested(c, op) \ known0)
(* a failed calculation only ever adds right values (Coherent) it was asked for *)
FaultSafe == pc = "return" /\ failed => known0 \subseteq Known /\ Known \subseteq (known0 \cup Requested(c, op))
(* every calculation ends *)
Ends == (pc = "collect") ~> (pc = "return")

\* values for the model checking configurations
T1 == [n |-> 2, nf |-> 3, lev |-> <<2, 1, 2>>, rows |-> << <<1, 1, 2>>, <<2, 1, 1>> >>, terms |-> <<>>]
T2 == [n |-> 3, nf |-> 3, lev |-> <<2, 2, 1>>, rows |-> << <<1, 2, 1>>, <<2, 1, 1>>, <<1, 2, 1>> >>, terms |-> <<>>]
=============================================================================
