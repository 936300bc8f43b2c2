----------------------------- MODULE TraceBase -----------------------------
(* Checking recorded executions.  Every recorded case is one behaviour: the  *)
(* specification starts in Start(case) and takes one step per logged event;  *)
(* Step computes the successor the specification allows for that event and   *)
(* the clause that the logged observation violates ("" if none).  Each case  *)
(* ends in exactly one printed verdict.                                      *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

CONSTANTS Start(_), Step(_, _, _), Cases   \* Cases: defined in the root module, so that TLC reads it once
VARIABLES i, pos, st, done

tvars == <<i, pos, st, done>>

TInit == /\ i \in 1..Len(Cases) /\ pos = 0 /\ done = FALSE /\ st = <<>>
Verdict(ok, clause) == PrintT("VERDICT " \o Cases[i].id \o " " \o ok \o " " \o clause)
TNext == /\ ~done /\ UNCHANGED i
         /\ IF pos = 0
            THEN pos' = 1 /\ st' = Start(Cases[i]) /\ done' = FALSE
            ELSE IF pos > Len(Cases[i].ev)
            THEN /\ Verdict("ACCEPT", "-") /\ done' = TRUE /\ UNCHANGED <<pos, st>>
            ELSE LET r == Step(Cases[i], st, Cases[i].ev[pos])
                 IN IF r.err = "" THEN pos' = pos + 1 /\ st' = r.st /\ done' = FALSE
                    ELSE /\ Verdict("REJECT", "event " \o ToString(pos) \o ": " \o r.err)
                         /\ done' = TRUE /\ UNCHANGED <<pos, st>>
=============================================================================
