---------------------------- MODULE Trace_ALLoop ----------------------------
(* C27: recorded loops against ALLoop.  init: [T: <<[key, lab, cost, exa]>>, L0, U0, c, crowd]
   steps: start, pick, query, back, look, save, reopen, analyse; post: what every book says *)
EXTENDS ALLoop, TraceBase
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == [T |-> ToSet(tr.init.T), s |-> Start(ToSet(tr.init.T), ToSet(tr.init.L0), ToSet(tr.init.U0)), c |-> tr.init.c, crowd |-> tr.init.crowd]
Next_(st, e) ==
  LET s == st.s IN
  CASE e.op = "query" -> Query(s, st.T, e.a.sel, e.a.f, e.a.perf)
    [] e.op = "back" -> Back(s, e.a)
    [] e.op = "save" -> Save(s)
    [] e.op = "reopen" -> Reopen(s, st.T)
    [] OTHER -> s
Sets(q, S) == ToSet(q) = S /\ Len(q) = Cardinality(S)
Books(p, st) == IF ~p.ok THEN {"observers_raise"} ELSE
  LET s == st.s  n == Len(s.h.q) IN
  Bad("labeled_collection", Sets(p.L, s.L)) \cup Bad("unlabeled_collection", Sets(p.U, s.U))
  \cup Bad("history_labeled", Sets(p.wL, s.L)) \cup Bad("history_unlabeled", Sets(p.wU, s.U)) \cup Bad("history_train_test", p.train)
  \cup Bad("recorded_queries", p.n = n /\ p.states = s.h.q)
  \cup Bad("recorded_cost", p.cost = CostOf(s.h))
  \cup Bad("knowledge", ToSet(p.rows) = {[key |-> t.key, lab |-> t.lab, exa |-> t.exa] : t \in {u \in st.T : u.key \in {w.key : w \in s.repo.rows}}} /\ Len(p.rows) = Cardinality(s.repo.rows))
  \cup Bad("knowledge_cost", p.rcost = s.repo.cost /\ p.rn = s.repo.n)
  \cup (IF st.crowd THEN Bad("ledger", p.lcost = s.led.cost /\ p.ln = s.led.n) ELSE {})
  \cup Bad("stopping", p.stop = Stops(st.c, SeeAll(s.h), 0))
SFails(st, e) ==
  LET s == st.s  g == [st EXCEPT !.s = Next_(st, e)] IN
  Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
  Books(e.post, g) \cup
  CASE e.op = "query" -> Bad("true_labels", e.v.lab = [n \in 1..Len(e.a.sel) |-> Of(st.T, e.a.sel[n]).lab])
                         \cup Bad("price", e.v.cost = CostOfSel(st.T, e.a.sel, e.a.f))
    [] e.op = "pick" -> Bad("picks_unlabeled", ToSet(e.v) \subseteq s.U /\ Cardinality(ToSet(e.v)) = Len(e.v)
                            /\ Len(e.v) = (IF e.a.b < Cardinality(s.U) THEN e.a.b ELSE Cardinality(s.U)))
    [] e.op = "look" -> Bad("earlier_round", Sets(e.v.L, LabAt(s.h, e.a)) /\ Sets(e.v.U, UnlAt(s.h, e.a)))
    [] e.op = "analyse" -> LET q == s.h.q IN
         Bad("analysed", e.v = (IF e.a = "num_of_queries" THEN [n \in 1..Len(q) |-> q[n].perf] ELSE [n \in 1..Len(q) |-> <<q[n].cost, q[n].perf>>]))
    [] OTHER -> {})
SAfter(st, e) == [st EXCEPT !.s = Next_(st, e)]
=============================================================================
