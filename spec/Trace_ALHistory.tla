--------------------------- MODULE Trace_ALHistory ---------------------------
EXTENDS ALHistory, TraceBase
(* init: [kind, K, L0, U0, train, test, round]
   post: [ok, n, nq, cost, queried, sels, costs, perfs, keeps, L, U, train, test, round, initial]
   (L, U as elements; sels as recorded spellings)                             *)
SetOf(sq) == ToSet(sq)
SumF(v) == LET F[k \in 0..Len(v)] == IF k = 0 THEN 0 ELSE F[k - 1] + v[k] IN F[Len(v)]
SInit(tr) == [h |-> [L0 |-> ToSet(tr.init.L0), U0 |-> ToSet(tr.init.U0), K |-> tr.init.K, q |-> <<>>],
              c |-> tr.init, disk |-> <<>>, have |-> FALSE]
Bad(name, cond) == IF cond THEN {} ELSE {name}
Ws(v, h, k, c, pre) ==       \* a workspace v = [L, U, train, test]
     Bad(pre \o "labeled", ToSet(v.L) = LabAt(h, k) /\ NoRepeat(v.L))
     \cup Bad(pre \o "unlabeled", ToSet(v.U) = UnlAt(h, k) /\ NoRepeat(v.U))
     \cup Bad(pre \o "train_test", v.train = c.train /\ v.test = c.test)
(* mean and standard deviation of the recorded performances, in hundredths *)
AvgOk(m, s, q) == LET n == Len(q) S == SumF([i \in 1..n |-> q[i].perf]) Q == SumF([i \in 1..n |-> q[i].perf * q[i].perf])
                      V == 10000 * (n * Q - S * S) lo == IF s > 1 THEN s - 1 ELSE 0 d == m * n - 100 * S IN
  IF n = 0 THEN m = 0 /\ s = 0 ELSE d <= n /\ -d <= n /\ lo * lo * n * n <= V /\ V <= (s + 1) * (s + 1) * n * n
Obs(p, h, c) == IF ~p.ok THEN {"observers_raise"} ELSE
     Bad("number_of_queries", p.n = Len(h.q) /\ p.nq = Len(h.q))
     \cup Bad("recorded_selections", p.sels = [i \in 1..Len(h.q) |-> h.q[i].sel])
     \cup Bad("recorded_costs", p.costs = [i \in 1..Len(h.q) |-> h.q[i].cost])
     \cup Bad("recorded_performance", p.perfs = [i \in 1..Len(h.q) |-> h.q[i].perf])
     \cup Bad("recorded_elements", p.keeps = [i \in 1..Len(h.q) |-> h.q[i].keep])
     \cup Bad("accumulated_cost", p.cost = CostOf(h))
     \cup Bad("performance_so_far", AvgOk(p.mean, p.sd, h.q))
     \cup Bad("printed", /\ p.shown.round /\ p.shown.n = Len(h.q) /\ p.shown.cost = CostOf(h) /\ p.shown.L = Cardinality(h.L0)
                         /\ LET a == Cardinality(h.L0) + Cardinality(h.U0) d == p.shown.pct * a - 10000 * Cardinality(h.L0) IN d <= a /\ -d <= a
                         /\ AvgOk(p.shown.mean, p.shown.sd, h.q))
     \cup Bad("members", p.has)
     \cup Bad("queried_examples", p.queried = QueriedOf(h))
     \cup Bad("fold", p.round = c.round) \cup Bad("initial_point", p.initial = c.initial)
     \cup Ws(p, h, Len(h.q), c, "current_")
Rec(e) == [sel |-> e.a.sel, cost |-> e.a.cost, perf |-> e.a.perf, keep |-> e.a.keep]
Nxt(st, e) ==
  CASE e.op = "add" -> [st EXCEPT !.h = AddQ(@, Rec(e))]
    [] e.op = "pop" -> IF e.a + 1 \in 1..Len(st.h.q) THEN [st EXCEPT !.h = PopQ(@, e.a + 1)] ELSE st
    [] e.op = "pop_last" -> IF st.h.q # <<>> THEN [st EXCEPT !.h = PopQ(@, Len(@.q))] ELSE st
    [] e.op = "recover" -> IF e.a \in 0..Len(st.h.q) THEN [st EXCEPT !.h = Recover(@, e.a)] ELSE st
    [] e.op = "save" -> [st EXCEPT !.disk = st.h.q, !.have = TRUE]
    [] e.op = "load" -> [st EXCEPT !.h.q = st.disk]
    [] OTHER -> st
SFails(st, e) ==
  LET h == st.h c == st.c p == e.post g == Nxt(st, e).h IN
  Bad("arguments_unmodified", e.argsame) \cup
  CASE e.op \in {"add", "save", "load", "new"} -> Bad("accepted", e.k = "ok") \cup Obs(p, g, c)
    [] e.op = "mutate" -> Obs(p, g, c)      \* every object handed in or out was modified by the caller
    [] e.op = "pop_last" -> IF h.q = <<>> THEN Bad("refused", e.k = "err") \cup Obs(p, h, c)
         ELSE Bad("accepted", e.k = "ok") \cup (IF e.k = "ok" THEN Bad("popped_query", e.v = h.q[Len(h.q)].sel) ELSE {}) \cup Obs(p, g, c)
    [] e.op = "pop" -> IF e.a + 1 \notin 1..Len(h.q) THEN Bad("refused", e.k = "err") \cup Obs(p, h, c)
         ELSE Bad("accepted", e.k = "ok") \cup (IF e.k = "ok" THEN Bad("popped_query", e.v = h.q[e.a + 1].sel) ELSE {}) \cup Obs(p, g, c)
    [] e.op \in {"get", "recover"} ->
         IF e.a \notin 0..Len(h.q) THEN Bad("refused", e.k = "err") \cup Obs(p, h, c)
         ELSE Bad("accepted", e.k = "ok") \cup (IF e.k = "ok" THEN Ws(e.v, h, e.a, c, "returned_") ELSE {}) \cup Obs(p, g, c)
    [] e.op = "get_oob_state" -> Bad("refused", e.k = "err") \cup Obs(p, h, c)
    [] e.op = "crash_saving" ->      \* v |-> what the file holds after the crash: [there, readable, q]
         Bad("file_is_complete", e.v.readable \/ (~e.v.there /\ ~st.have))
         \cup Bad("file_is_previous_or_new", ~e.v.readable \/
               e.v.q = h.q \/ (st.have /\ e.v.q = st.disk))
         \cup Obs(p, h, c)
SAfter(st, e) == IF e.op = "crash_saving"
                 THEN (IF e.v.readable /\ e.v.q = st.h.q
                       THEN [st EXCEPT !.disk = st.h.q, !.have = TRUE] ELSE st)
                 ELSE IF e.k = "err" /\ e.op \in {"add"} THEN st ELSE Nxt(st, e)
=============================================================================
