----------------------------- MODULE Trace_Pool -----------------------------
EXTENDS Pool, TraceBase
(* init: [U, L, one]; steps: select [b, pool, sel, k, same] followed by label [sel] when it is moved *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
ToSet(s) == {s[j] : j \in DOMAIN s}
SInit(tr) == [U |-> ToSet(tr.init.U), L |-> ToSet(tr.init.L), one |-> tr.init.one, last |-> {}]
SFails(st, e) ==
  CASE e.op = "select" ->
        Bad("caller_data_unchanged", e.same) \cup
        (IF e.k # "ok" THEN {"returns_a_selection"} ELSE
         Bad("members_of_the_pool", ToSet(e.sel) \subseteq ToSet(e.pool)) \cup
         Bad("distinct", Cardinality(ToSet(e.sel)) = Len(e.sel)) \cup
         Bad("exact_number", Len(e.sel) = Due(e.b, Cardinality(ToSet(e.pool)), st.one)))
    [] e.op = "label" -> Bad("pool_shrinks", ToSet(e.sel) \subseteq st.U)
    [] OTHER -> {}
SAfter(st, e) ==
  CASE e.op = "label" -> [st EXCEPT !.U = @ \ ToSet(e.sel), !.L = @ \cup ToSet(e.sel)]
    [] OTHER -> st
=============================================================================
