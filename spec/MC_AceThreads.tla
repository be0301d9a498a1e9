--------------------------- MODULE MC_AceThreads ---------------------------
EXTENDS AceThreads
(* without crashes the main loop refines AceSched *)
Abs == INSTANCE AceSched WITH FoldNum <- N, Limit <- M, QMax <- Q,
         begun <- {i \in Rounds : thr[i] # "no"}, ended <- {i \in Rounds : thr[i] = "end"},
         rec <- mem, ret <- (pc = "done")
Refines == Abs!Spec
=============================================================================
