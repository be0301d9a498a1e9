---------------------------- MODULE Trace_Oracle ----------------------------
EXTENDS OracleKB, TraceBase
(* init: [K, kb, inst, costflag, defcost, multi]  (C09)
   steps: new, q, qe, learn, reload; post: [ok, n, ans, byexa] = everything the oracle answers *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == [kb |-> ToSet(tr.init.kb), c |-> tr.init]
Full(kb, K) == {[i |-> e.i, lab |-> e.lab, cost |-> e.cost] : e \in kb}
FullExa(kb, K) == {[exa |-> e.exa, lab |-> e.lab, cost |-> e.cost] : e \in kb}
Obs(p, st) == IF ~p.ok THEN {"observers_raise"} ELSE
   Bad("keys", p.n = Cardinality(st.kb))
   \cup Bad("knowledge_by_index", ToSet(p.ans) = Full(st.kb, st.c.K) /\ Len(p.ans) = Cardinality(st.kb))
   \cup (IF st.c.inst THEN Bad("knowledge_by_example", ToSet(p.byexa) = FullExa(st.kb, st.c.K)) ELSE {})
LearnOk(st, a) == (st.c.inst => a.hasexa) /\ (st.c.costflag /\ ~st.c.defcost => a.hascost) /\ a.shapeok
Old(st, es) == {n \in 1..Len(es) : es[n].i \in Keys(st.kb)}
After(st, e) ==
  CASE e.op = "learn" /\ LearnOk(st, e.a) -> [st EXCEPT !.kb = @ \cup {e.a.es[n] : n \in (1..Len(e.a.es)) \ Old(st, e.a.es)}]
    [] OTHER -> st
ByExa(st, x) == [x EXCEPT ![2] = (CHOOSE e \in st.kb : e.exa = x[2]).i]
SFails(st, e) ==
  LET K == st.c.K IN
  Bad("arguments_unmodified", e.argsame) \cup Obs(e.post, After(st, e)) \cup
  CASE e.op \in {"new", "reload"} -> Bad("accepted", e.k = "ok")
    [] e.op = "q" -> IF AllAnswerable(st.kb, e.a, K)
         THEN Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
              LET w == Answer(st.kb, e.a, K) IN Bad("labels", e.v.lab = w.lab) \cup Bad("costs", e.v.cost = w.cost))
         ELSE Bad("unknown_refused", e.k = "err")
    [] e.op = "qe" -> IF st.c.inst /\ \A n \in 1..Len(e.a) : e.a[n][2] \in Exas(st.kb)
         THEN Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
              LET w == Answer(st.kb, [n \in 1..Len(e.a) |-> ByExa(st, e.a[n])], K)
              IN Bad("labels_by_example", e.v.lab = w.lab) \cup Bad("costs_by_example", e.v.cost = w.cost))
         ELSE Bad("unknown_refused", e.k = "err")
    [] e.op = "learn" -> IF LearnOk(st, e.a) THEN Bad("accepted", e.k = "ok") ELSE Bad("incomplete_knowledge_refused", e.k = "err")
SAfter(st, e) == After(st, e)
=============================================================================
