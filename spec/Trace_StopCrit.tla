--------------------------- MODULE Trace_StopCrit ---------------------------
EXTENDS StopCrit, TraceBase
(* init: [c, K, L0, U0]; steps: new/check/update/reset/add/pop_last/recover/tick/copy/newfold/badkind *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
H0(i) == [L0 |-> ToSet(i.L0), U0 |-> ToSet(i.U0), K |-> i.K, q |-> <<>>]
SInit(tr) == [c |-> tr.init.c, h |-> H0(tr.init), h0 |-> H0(tr.init), seen |-> Fresh, start |-> 0, now |-> 0]
Valid(c) == c.kind # "percent_of_unlabel" \/ (c.num >= 0 /\ c.num <= c.den)
Expected(st) == Stops(st.c, st.seen, st.now - st.start)
SFails(st, e) ==
  CASE e.op = "check" ->
        IF Valid(st.c) \/ st.seen.left = 0
        THEN Bad("answers", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
             Bad("stops_when_reached", Expected(st) => e.v) \cup Bad("never_earlier", e.v => Expected(st)))
        ELSE Bad("limit_outside_range_refused", e.k = "err")
    [] e.op = "badkind" -> Bad("unknown_criterion_refused", e.k = "err")
    [] OTHER -> Bad("accepted", e.k = "ok")
SAfter(st, e) ==
  CASE e.op = "update" -> [st EXCEPT !.seen = SeeAll(st.h)]
    [] e.op = "reset" -> [st EXCEPT !.seen = Fresh, !.start = st.now]
    [] e.op = "new" -> [st EXCEPT !.start = st.now]
    [] e.op = "add" -> [st EXCEPT !.h = AddQ(@, [sel |-> e.a.sel, cost |-> e.a.cost, perf |-> 0])]
    [] e.op = "pop_last" -> IF st.h.q = <<>> THEN st ELSE [st EXCEPT !.h = PopQ(@, Len(@.q))]
    [] e.op = "recover" -> [st EXCEPT !.h = Recover(@, e.a)]
    [] e.op = "newfold" -> [st EXCEPT !.h.q = <<>>]
    [] e.op = "tick" -> [st EXCEPT !.now = @ + e.a]
    [] OTHER -> st
=============================================================================
