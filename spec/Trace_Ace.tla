----------------------------- MODULE Trace_Ace -----------------------------
EXTENDS AceLimit, TraceBase
(* init: [n, m, folds : sequence of [train, test, L, U]]
   begin(i, a = [round, train, test, L, U, nsav, data, gp]) / step(i, q) / leave(i) /
   settle(running) / return(results, again) / refused                              *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
ToSet(s) == {s[j] : j \in DOMAIN s}
SInit(tr) == [n |-> tr.init.n, m |-> tr.init.m, f |-> tr.init.folds, begun |-> {}, ended |-> {},
              rec |-> [i \in 1..tr.init.n |-> <<>>], ret |-> FALSE]
SFails(st, e) ==
  LET act == st.begun \ st.ended IN
  CASE e.op = "begin" ->
         IF e.i \notin 1..st.n THEN {"unknown_fold"} ELSE
         Bad("fold_begins_once", e.i \notin st.begun) \cup
         Bad("within_thread_limit", Cardinality(act \ {e.i}) < st.m) \cup
         Bad("not_after_return", ~st.ret) \cup
         Bad("own_round", e.a.round = e.i /\ e.a.savround = e.i) \cup
         Bad("own_train_test", e.a.train = st.f[e.i].train /\ e.a.test = st.f[e.i].test
                               /\ e.a.savtrain = st.f[e.i].train /\ e.a.savtest = st.f[e.i].test) \cup
         Bad("own_labeled", ToSet(e.a.L) = ToSet(st.f[e.i].L) /\ Len(e.a.L) = Len(st.f[e.i].L)) \cup
         Bad("own_unlabeled", ToSet(e.a.U) = ToSet(st.f[e.i].U) /\ Len(e.a.U) = Len(st.f[e.i].U)) \cup
         Bad("own_history", e.a.nsav = 0) \cup
         Bad("data_and_parameters", e.a.data /\ e.a.gp)
    [] e.op = "step" -> Bad("recorded", e.k = "ok")
    [] e.op = "leave" -> {}
    [] e.op = "settle" ->
         Bad("free_slot_given_to_waiting_fold", Cardinality(act) >= Settled(st.n, st.m, Cardinality(st.ended))) \cup
         Bad("still_running", ~st.ret \/ st.ended = 1..st.n)
    [] e.op = "return" ->
         Bad("returns_normally", e.k = "ok") \cup
         Bad("returns_after_all_folds", st.ended = 1..st.n) \cup
         Bad("results_as_recorded", Len(e.a.results) = st.n /\ \A i \in 1..st.n : e.a.results[i].round = i /\ e.a.results[i].q = st.rec[i]) \cup
         Bad("results_of_own_split", \A i \in 1..Len(e.a.results) : i <= st.n =>
               /\ e.a.results[i].train = st.f[i].train /\ e.a.results[i].test = st.f[i].test
               /\ ToSet(e.a.results[i].L) = ToSet(st.f[i].L) /\ ToSet(e.a.results[i].U) = ToSet(st.f[i].U)) \cup
         Bad("results_independent", e.a.again)
    [] e.op = "noreturn" -> {"returns_after_all_folds_ended"}
    [] e.op = "caller_data" -> Bad("caller_data_unchanged", e.a)
    [] e.op = "badtarget" -> Bad("wrong_signature_refused", e.k = "err")
    [] e.op = "goodtarget" -> Bad("right_signature_accepted", e.k = "ok")
    [] e.op = "nottarget" -> Bad("start_without_function_refused", e.k = "err" /\ e.a = 0)
    [] OTHER -> {"unknown_step"}
SAfter(st, e) ==
  CASE e.op = "begin" -> IF e.i \in 1..st.n THEN [st EXCEPT !.begun = @ \cup {e.i}] ELSE st
    [] e.op = "step" -> IF e.k = "ok" THEN [st EXCEPT !.rec[e.i] = Append(@, e.q)] ELSE st
    [] e.op = "leave" -> [st EXCEPT !.ended = @ \cup {e.i}]
    [] e.op = "return" -> [st EXCEPT !.ret = TRUE]
    [] OTHER -> st
=============================================================================
