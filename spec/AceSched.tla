------------------------------ MODULE AceSched ------------------------------
(* C12, as seen by the folds: N folds, at most M running at a time, each begins
   once and ends (normally or by failing), the run returns after all ended with
   exactly what the folds recorded.  AceThreads (the main loop with its saving)
   refines this specification; Trace_Ace validates recorded runs against it.  *)
EXTENDS AceLimit
CONSTANTS FoldNum, Limit, QMax
VARIABLES begun, ended, rec, ret
Folds == 1..FoldNum
Active == begun \ ended
Init == begun = {} /\ ended = {} /\ rec = [i \in Folds |-> 0] /\ ret = FALSE
Begin(i) == /\ i \notin begun /\ Cardinality(Active) < Limit
            /\ begun' = begun \cup {i} /\ UNCHANGED <<ended, rec, ret>>
Step(i) == /\ i \in Active /\ rec[i] < QMax
           /\ rec' = [rec EXCEPT ![i] = @ + 1] /\ UNCHANGED <<begun, ended, ret>>
Leave(i) == i \in Active /\ ended' = ended \cup {i} /\ UNCHANGED <<begun, rec, ret>>
Return == ended = Folds /\ ~ret /\ ret' = TRUE /\ UNCHANGED <<begun, ended, rec>>
Next == Return \/ \E i \in Folds : Begin(i) \/ Step(i) \/ Leave(i)
Spec == Init /\ [][Next]_<<begun, ended, rec, ret>>
=============================================================================
