------------------------------ MODULE TraceBase ------------------------------
(* Batch trace validation.  TRACE_FILE is an ndjson file; each line is one
   recorded behaviour of the real code: [id, tag, init, steps].  A Trace_X
   module defines, from the actions of specification X,
     TInit(tr)     the abstract state before the first step
     TFails(s, e)  the names of the clauses of the specification that the
                   recorded step e, taken in abstract state s, violates
                   ({} exactly when e is a step of the specification)
     TAfter(s, e)  the abstract state after the step (the specification's
                   next state; the observed one when the step was rejected, so
                   that the rest of the behaviour is still judged)
   The verdict is total: every rejected step is printed with its clauses, and
   the wrapper requires the number of distinct states to equal the number of
   recorded positions, so no line goes unexamined.                            *)
EXTENDS Json, IOUtils, TLC, Sequences, Naturals, FiniteSets
CONSTANTS TInit(_), TFails(_, _), TAfter(_, _)
VARIABLES xT, xL, xS

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TraceInit == /\ xT \in 1..Len(Traces)
             /\ xL = 1
             /\ xS = TInit(Traces[xT])

TraceNext ==
  /\ xL <= Len(Traces[xT].steps)
  /\ LET e == Traces[xT].steps[xL]
         f == TFails(xS, e)
     IN /\ IF f = {} THEN TRUE
           ELSE PrintT("FAIL@@" \o ToJson([id |-> Traces[xT].id, tag |-> Traces[xT].tag,
                                           step |-> xL, op |-> e.op, clauses |-> f]))
        /\ xS' = TAfter(xS, e)
        /\ xL' = xL + 1
        /\ xT' = xT

TraceSpec == TraceInit /\ [][TraceNext]_<<xT, xL, xS>>
=============================================================================
