----------------------------- MODULE MC_ALRun -----------------------------
(* The folds of an experiment run in threads, each step of a fold being
     fit    - the model is fitted on the labeled set,
     measure- it is evaluated on the test set, recorded and saved to disk
              (the first time: the initial point); stop or select.
   The program may be killed at any point (at most CRASHES times) and is then
   recovered from the saved histories; a fold that has stopped may be known
   to have stopped or not (then it is started again).
   SHARED: the folds share one model object.  FORGET: a recovered fold takes
   its first measure for the initial point and starts counting again.         *)
EXTENDS ALRun, TLC, Json
CONSTANTS NF, NU, Q, CRASHES, SHARED, FORGET, SCHED
VARIABLES h, ini, pc, mdl, seen, crashes, sched
vars == <<h, ini, pc, mdl, seen, crashes, sched>>
g == [K |-> 3, b |-> 1, c |-> [kind |-> IF Q = 0 THEN "none" ELSE "num_of_queries", num |-> Q, den |-> 1], a |-> 5,
      y |-> [i \in 1..40 |-> (i * i + (i \div 4)) % 3], w |-> <<1, 2>>, metric |-> "accuracy_score"]
Fold(i) == [test |-> <<8 * i - 2, 8 * i - 1>>, L0 |-> <<8 * (i - 1), 8 * (i - 1) + 1>>, U0 |-> [n \in 1..NU |-> 8 * (i - 1) + 1 + n]]
F == 1..NF
Init == /\ h = [i \in F |-> Begin(Fold(i))] /\ ini = [i \in F |-> -1] /\ pc = [i \in F |-> "fit"]
        /\ mdl = [i \in F |-> {}] /\ seen = [i \in F |-> Fresh] /\ crashes = 0 /\ sched = <<>>
Note(x) == sched' = IF SCHED THEN Append(sched, x) ELSE sched
Lab(i) == LabAt(h[i], Len(h[i].q))
(* the next selection of fold i, made with the model at hand, extends the labeled set before it is fitted again *)
Fit(i) == /\ pc[i] \in {"fit", "refit"}
          /\ LET LL == IF pc[i] = "fit" THEN Lab(i) ELSE Lab(i) \cup ToSet(Select(g, Lab(i), UnlAt(h[i], Len(h[i].q)))) IN
             mdl' = IF SHARED THEN [j \in F |-> LL] ELSE [mdl EXCEPT ![i] = LL]
          /\ pc' = [pc EXCEPT ![i] = IF pc[i] = "fit" THEN "first" ELSE "measure"]
          /\ Note(i) /\ UNCHANGED <<h, ini, seen, crashes>>
Measured(i) == Right(g, Fold(i), mdl[i])
First(i) == /\ pc[i] = "first"
            /\ ini' = IF ini[i] = -1 \/ FORGET THEN [ini EXCEPT ![i] = Measured(i)] ELSE ini
            /\ LET s == IF FORGET THEN Fresh ELSE SeeAll(h[i]) IN
               /\ seen' = [seen EXCEPT ![i] = s]
               /\ pc' = [pc EXCEPT ![i] = IF Stops(g.c, s, 0) THEN "end" ELSE "refit"]
            /\ Note(i) /\ UNCHANGED <<h, mdl, crashes>>
Measure(i) == /\ pc[i] = "measure"
              /\ LET s == Select(g, Lab(i), UnlAt(h[i], Len(h[i].q)))
                     n == AddQ(h[i], [sel |-> s, cost |-> 0, perf |-> Measured(i)])
                     v == SeeAll(n) IN
                 /\ h' = [h EXCEPT ![i] = n] /\ seen' = [seen EXCEPT ![i] = v]
                 /\ pc' = [pc EXCEPT ![i] = IF Stops(g.c, v, 0) THEN "end" ELSE "refit"]
              /\ Note(i) /\ UNCHANGED <<ini, mdl, crashes>>
Crash == /\ crashes < CRASHES /\ \E i \in F : pc[i] # "end"
         /\ crashes' = crashes + 1
         /\ \E known \in SUBSET {i \in F : pc[i] = "end"} : pc' = [i \in F |-> IF i \in known THEN "end" ELSE "fit"]
         /\ mdl' = [i \in F |-> {}] /\ Note(0) /\ UNCHANGED <<h, ini, seen>>
Next == Crash \/ \E i \in F : Fit(i) \/ First(i) \/ Measure(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E i \in F : Fit(i) \/ First(i) \/ Measure(i))
(* what is recorded was measured with the fold's own model, as if the fold had run alone and uninterrupted *)
OwnPrefix == \A i \in F : LET r == Run(g, Fold(i)) IN
   /\ Len(h[i].q) <= Len(r.q) /\ h[i].q = SubSeq(r.q, 1, Len(h[i].q))
   /\ ini[i] \in {-1, InitialPoint(g, Fold(i))}
FinalExact == \A i \in F : pc[i] = "end" => h[i] = Run(g, Fold(i)) /\ ini[i] # -1
Ends == <>[](\A i \in F : pc[i] = "end")
Emit == (SCHED /\ \A i \in F : pc[i] = "end") => PrintT("B@@" \o ToJson([q |-> Q, nu |-> NU, nf |-> NF, sched |-> sched]))
=============================================================================
