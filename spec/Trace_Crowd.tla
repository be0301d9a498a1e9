---------------------------- MODULE Trace_Crowd ----------------------------
EXTENDS OracleKB, TraceBase
(* C10. init: [K]; steps: addoracle [name, kb], learn [name, es], ask [q, names | "any"], mutate.
   post: [ok, cost, hist: <<[names, q, ans]>>, names, len, table: <<[name, n, cost]>>, full: <<[name, n]>>] *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == [K |-> tr.init.K, os |-> <<>>, hs |-> <<>>]
Names(st) == {o.name : o \in ToSet(st.os)}
KB(st, nm) == (CHOOSE o \in ToSet(st.os) : o.name = nm).kb
Answered(st, nm, q) == nm \in Names(st) /\ AllAnswerable(KB(st, nm), q, st.K)
Asked(st, e) == IF e.a.any THEN (IF e.k = "ok" /\ e.post.ok /\ Len(e.post.hist) > 0 THEN e.post.hist[Len(e.post.hist)].names ELSE <<>>)
                ELSE e.a.names
AskOk(st, e) == LET ns == Asked(st, e) IN \A n \in 1..Len(ns) : Answered(st, ns[n], e.a.q)
Upd(st, nm, es) == [st EXCEPT !.os = [n \in 1..Len(@) |-> IF @[n].name = nm THEN [@[n] EXCEPT !.kb = @ \cup ToSet(es)] ELSE @[n]]]
After(st, e) ==
  CASE e.op = "addoracle" -> [st EXCEPT !.os = Append(@, [name |-> e.a.name, kb |-> ToSet(e.a.kb)])]
    [] e.op = "learn" -> Upd(st, e.a.name, e.a.es)
    [] e.op = "ask" -> IF (e.a.any /\ e.k # "ok") \/ ~AskOk(st, e) THEN st
          ELSE LET ns == Asked(st, e) IN
               [st EXCEPT !.hs = Append(@, [names |-> ns, q |-> e.a.q, ans |-> [n \in 1..Len(ns) |-> Answer(KB(st, ns[n]), e.a.q, st.K)]])]
    [] OTHER -> st
Obs(p, st) == IF ~p.ok THEN {"observers_raise"} ELSE
   LET nms == [n \in 1..Len(st.os) |-> st.os[n].name] IN
   Bad("names", p.names = nms /\ p.len = Len(nms))
   \cup Bad("history_queries", [n \in 1..Len(p.hist) |-> <<p.hist[n].names, p.hist[n].q>>] = [n \in 1..Len(st.hs) |-> <<st.hs[n].names, st.hs[n].q>>])
   \cup Bad("history_answers", [n \in 1..Len(p.hist) |-> p.hist[n].ans] = [n \in 1..Len(st.hs) |-> st.hs[n].ans])
   \cup Bad("accumulated_cost", p.cost = LedgerCost(st.hs))
   \cup Bad("summary_table", ToSet(p.table) = {[name |-> x, n |-> AskedOf(st.hs, x), cost |-> CostOfOracle(st.hs, x)] : x \in ToSet(nms)})
   \cup Bad("history_table", ToSet(p.full) = {[name |-> x, n |-> AskedOf(st.hs, x)] : x \in ToSet(nms)})
SFails(st, e) ==
  Obs(e.post, After(st, e)) \cup
  CASE e.op = "ask" ->
     IF e.a.any
     THEN IF \E nm \in Names(st) : Answered(st, nm, e.a.q)
          THEN (IF \A nm \in Names(st) : Answered(st, nm, e.a.q) THEN Bad("accepted", e.k = "ok") ELSE {}) \cup
               (IF e.k # "ok" THEN {} ELSE
                  Bad("asked_a_member", Len(Asked(st, e)) = 1 /\ AskOk(st, e))
                  \cup Bad("own_answer", AskOk(st, e) /\ Len(Asked(st, e)) = 1 => e.v = <<Answer(KB(st, Asked(st, e)[1]), e.a.q, st.K)>>))
          ELSE Bad("unknown_refused", e.k = "err")
     ELSE IF AskOk(st, e)
          THEN Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
               Bad("own_answer", e.v = [n \in 1..Len(e.a.names) |-> Answer(KB(st, e.a.names[n]), e.a.q, st.K)]))
          ELSE Bad("unknown_refused", e.k = "err")
    [] e.op = "badoracle" -> Bad("not_an_oracle_refused", e.k = "err")
    [] OTHER -> Bad("accepted", e.k = "ok")
SAfter(st, e) == After(st, e)
=============================================================================
