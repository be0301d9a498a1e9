-------------------------- MODULE Trace_AceCrash --------------------------
EXTENDS Integers, TraceBase
(* A threaded experiment that is killed and recovered, as seen by the folds.
   init: [n, m, Q, L, U (per fold), plan (per fold: its Q selections)]
   For every fold: lo = the queries known to be saved, hi = the most it can have
   recorded (when the process died between an addition and its report), cur =
   the queries recorded in the present process, fin = the main loop has saved its
   state at least once since an earlier saving had found the fold's thread ended. *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
ToSet(s) == {s[j] : j \in DOMAIN s}
Max(a, b) == IF a > b THEN a ELSE b
SInit(tr) == [i |-> tr.init, lo |-> [f \in 1..tr.init.n |-> 0], hi |-> [f \in 1..tr.init.n |-> 0], cur |-> [f \in 1..tr.init.n |-> 0],
              begun |-> {}, left |-> {}, dead |-> {}, deadprev |-> {}, fin |-> {}]
Prefix(p, k) == [j \in 1..k |-> p[j]]
Queried(p, k) == UNION {ToSet(p[j]) : j \in 1..k}
SFails(st, e) ==
  LET n == st.i.n
      act == st.begun \ st.left IN
  CASE e.op = "begin" ->
        IF e.i \notin 1..n THEN {"unknown_fold"} ELSE
        LET p == st.i.plan[e.i] IN
         Bad("fold_begins_once", e.i \notin st.begun) \cup
         Bad("within_thread_limit", Cardinality(act \ {e.i}) < st.i.m) \cup
         Bad("finished_fold_not_run_again", e.i \notin st.fin) \cup
         Bad("resumes_from_last_saved_query", e.n >= st.lo[e.i]) \cup
         Bad("no_query_invented", e.n <= st.hi[e.i]) \cup
         (IF e.n > Len(p) THEN {} ELSE
          Bad("own_queries_in_order", e.q = Prefix(p, e.n)) \cup
          Bad("labeled_replayed", ToSet(e.L) = ToSet(st.i.L[e.i]) \cup Queried(p, e.n)) \cup
          Bad("unlabeled_replayed", ToSet(e.U) = ToSet(st.i.U[e.i]) \ Queried(p, e.n))) \cup
         Bad("data_and_parameters", e.ok)
    [] e.op = "add" -> Bad("recorded_in_order", e.kk = st.cur[e.i] + 1)
    [] e.op = "stall" -> {"continues_to_the_end"}
    [] e.op = "failed" -> {"recovers_and_runs"}
    [] e.op = "leave" -> Bad("fold_complete", e.kk = st.i.Q)
    [] e.op = "restart" -> Bad("progress_recoverable", \A f \in 1..n : st.lo[f] = 0)   \* no overall state on disk: only right before anything was saved
    [] e.op = "return" ->
         Bad("returns_after_all_folds", st.begun \subseteq st.left) \cup
         Bad("every_fold_complete", Len(e.results) = n /\ \A f \in 1..n : Len(e.results[f]) = st.i.Q) \cup
         Bad("results_of_an_uninterrupted_run", e.results = st.i.plan) \cup
         Bad("results_in_fold_order", e.rounds = [f \in 1..n |-> f])
    [] OTHER -> {}
SAfter(st, e) ==
  LET n == st.i.n IN
  CASE e.op = "begin" -> IF e.i \notin 1..n THEN st ELSE
         [st EXCEPT !.begun = @ \cup {e.i}, !.cur[e.i] = e.n, !.hi[e.i] = e.n, !.lo[e.i] = Max(@, e.n), !.left = @ \ {e.i}]
    [] e.op = "add" -> [st EXCEPT !.cur[e.i] = e.kk, !.hi[e.i] = Max(@, e.kk)]
    [] e.op = "saved" -> [st EXCEPT !.lo[e.i] = Max(@, e.kk)]
    [] e.op = "leave" -> [st EXCEPT !.left = @ \cup {e.i}]
    [] e.op = "msave" -> [st EXCEPT !.deadprev = st.dead, !.dead = ToSet(e.dead)]
    [] e.op = "msaved" -> [st EXCEPT !.fin = @ \cup st.deadprev]
    [] e.op = "return" -> [st EXCEPT !.fin = 1..n]
    [] e.op = "crash" -> [st EXCEPT !.begun = {}, !.left = {}, !.dead = {}, !.deadprev = {},
                                    !.hi = [f \in 1..n |-> IF f \in (st.begun \ st.left) /\ st.hi[f] < st.i.Q THEN st.hi[f] + 1 ELSE st.hi[f]]]
    [] e.op = "restart" -> SInit([init |-> st.i])
    [] OTHER -> st
=============================================================================
