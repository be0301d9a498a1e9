----------------------------- MODULE AceThreads -----------------------------
(* C12/C13: folds run in threads under a limit, with recovery from crashes.
   Rounds 1..N, at most M threads at a time; a round records Q queries, saving
   its history after recording (not atomically with it).  The main thread
   starts rounds in order as slots get free, saving the overall state after
   each start and each join; the process may die between any two steps.
     mem[i]  queries recorded in memory      file[i] queries in the round's file
     thr[i]  "no" | "run" | "end"            sfile  overall state: rounds known
     finished (with their histories), or not yet written
   MarkLate = TRUE is the bookkeeping before the repairs in /repo (a round is
   "unfinished" only while its thread is alive): it violates NoLoss.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, Q, MaxCrash, MarkLate
Rounds == 1..N
VARIABLES pc, k, torun, thr, mem, file, sfile, crashes, saved, starts
tvars == <<pc, k, torun, thr, mem, file, sfile, crashes, saved, starts>>
None == -1
Running == {i \in Rounds : thr[i] = "run"}
Finished == {i \in Rounds : i \notin torun \/ thr[i] = "end"}
Snap == [have |-> TRUE, fin |-> IF MarkLate THEN {i \in Rounds : thr[i] # "run"} ELSE Finished, mem |-> mem]
TInitial ==
  /\ pc = "presave" /\ k = 1 /\ torun = Rounds /\ thr = [i \in Rounds |-> "no"]
  /\ mem = [i \in Rounds |-> 0] /\ file = [i \in Rounds |-> None]
  /\ sfile = [have |-> FALSE, fin |-> {}, mem |-> [i \in Rounds |-> 0]]
  /\ crashes = 0 /\ saved = [i \in Rounds |-> 0] /\ starts = [i \in Rounds |-> 0]
(* ---- main thread *)
PreSave == /\ pc = "presave"
           /\ IF k > N THEN pc' = "presave_all" /\ k' = 1 /\ UNCHANGED file
              ELSE /\ pc' = pc /\ k' = k + 1
                   /\ file' = IF MarkLate \/ k \notin torun THEN file ELSE [file EXCEPT ![k] = mem[k]]
           /\ UNCHANGED <<torun, thr, mem, sfile, crashes, saved, starts>>
PreSaveAll == /\ pc = "presave_all" /\ pc' = "launch" /\ k' = 1
              /\ sfile' = IF MarkLate THEN sfile ELSE Snap
              /\ UNCHANGED <<torun, thr, mem, file, crashes, saved, starts>>
Skip == /\ pc = "launch" /\ k <= N /\ k \notin torun /\ k' = k + 1
        /\ UNCHANGED <<pc, torun, thr, mem, file, sfile, crashes, saved, starts>>
Launch == /\ pc = "launch" /\ k <= N /\ k \in torun /\ Cardinality(Running) < M
          /\ thr' = [thr EXCEPT ![k] = "run"] /\ starts' = [starts EXCEPT ![k] = @ + 1] /\ pc' = "launch_save"
          /\ UNCHANGED <<k, torun, mem, file, sfile, crashes, saved>>
LaunchSave == /\ pc = "launch_save" /\ sfile' = Snap /\ pc' = "launch" /\ k' = k + 1
              /\ UNCHANGED <<torun, thr, mem, file, crashes, saved, starts>>
Joining == /\ pc = "launch" /\ k > N /\ pc' = "join" /\ k' = 1
           /\ UNCHANGED <<torun, thr, mem, file, sfile, crashes, saved, starts>>
Join == /\ pc = "join" /\ k <= N /\ thr[k] # "run" /\ sfile' = (IF k \in torun THEN Snap ELSE sfile) /\ k' = k + 1
        /\ UNCHANGED <<pc, torun, thr, mem, file, crashes, saved, starts>>
Return == /\ pc = "join" /\ k > N /\ pc' = "done"
          /\ UNCHANGED <<k, torun, thr, mem, file, sfile, crashes, saved, starts>>
Main == PreSave \/ PreSaveAll \/ Skip \/ Launch \/ LaunchSave \/ Joining \/ Join \/ Return
(* ---- a round's thread: record a query, save; ends when all Q are recorded and saved *)
Record(i) == /\ thr[i] = "run" /\ mem[i] < Q /\ file[i] \in {mem[i], None} /\ (mem[i] > 0 => file[i] = mem[i])
             /\ mem' = [mem EXCEPT ![i] = @ + 1]
             /\ UNCHANGED <<pc, k, torun, thr, file, sfile, crashes, saved, starts>>
Save(i) == /\ thr[i] = "run" /\ file[i] # mem[i] /\ mem[i] > 0
           /\ file' = [file EXCEPT ![i] = mem[i]] /\ saved' = [saved EXCEPT ![i] = mem[i]]
           /\ UNCHANGED <<pc, k, torun, thr, mem, sfile, crashes, starts>>
End(i) == /\ thr[i] = "run" /\ mem[i] = Q /\ file[i] = Q
          /\ thr' = [thr EXCEPT ![i] = "end"]
          /\ UNCHANGED <<pc, k, torun, mem, file, sfile, crashes, saved, starts>>
Worker(i) == Record(i) \/ Save(i) \/ End(i)
(* ---- crash and recovery *)
Crash == /\ crashes < MaxCrash /\ pc # "crashed"
         /\ pc' = "crashed" /\ crashes' = crashes + 1 /\ k' = 1
         /\ thr' = [i \in Rounds |-> "no"] /\ mem' = [i \in Rounds |-> 0]
         /\ UNCHANGED <<torun, file, sfile, saved, starts>>
FromFile(i) == IF file[i] = None THEN 0 ELSE file[i]
Recover == /\ pc = "crashed" /\ pc' = "presave" /\ k' = 1
           /\ IF sfile.have
              THEN /\ torun' = IF MarkLate THEN {i \in Rounds : i \notin sfile.fin \/ file[i] = None} ELSE Rounds \ sfile.fin
                   /\ mem' = [i \in Rounds |-> IF ~MarkLate /\ i \in sfile.fin THEN sfile.mem[i] ELSE FromFile(i)]
              ELSE torun' = Rounds /\ mem' = [i \in Rounds |-> 0]     \* nothing to recover: a new run
           /\ starts' = [i \in Rounds |-> 0]
           /\ UNCHANGED <<thr, file, sfile, crashes, saved>>
TNext == Main \/ (\E i \in Rounds : Worker(i)) \/ Crash \/ Recover
TSpec == TInitial /\ [][TNext]_tvars /\ WF_tvars(Main) /\ (\A i \in Rounds : WF_tvars(Worker(i))) /\ WF_tvars(Recover)
(* ---- C12 *)
WithinLimit == Cardinality(Running) <= M
OncePerRun == \A i \in Rounds : starts[i] <= 1 /\ (i \notin torun => starts[i] = 0)
ReturnsAfterAll == pc = "done" => Running = {} /\ \A i \in torun : starts[i] = 1
(* ---- C13 *)
NoLoss == pc # "crashed" => \A i \in Rounds : mem[i] >= saved[i]
Complete == pc = "done" => \A i \in Rounds : mem[i] = Q
NotAgain == \A i \in Rounds : (pc # "crashed" /\ sfile.have /\ i \in sfile.fin /\ thr[i] = "no" /\ ~MarkLate) => i \notin torun
Completes == <>[](pc = "done")
(* a free slot is given to a waiting round *)
NoIdleSlot == (pc = "launch" /\ k <= N /\ k \in torun /\ Cardinality(Running) < M) ~> (pc # "launch" \/ Cardinality(Running) >= M \/ k > N)
=============================================================================
