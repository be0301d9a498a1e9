---------------------------- MODULE Trace_KRepo ----------------------------
EXTENDS KRepo, TraceBase
(* init: [kind, hasx, kb]; labels, examples, indexes as strings
   post: [ok, idx, labs, exas, members, byi: <<[i, lab, exa]>>, byx: <<[exa, labs]>>, cost, nq, hn, hcost] *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == [kb |-> tr.init.kb, kind |-> tr.init.kind, hasx |-> tr.init.hasx, cost |-> 0, nq |-> 0]
Strip(st, e) == [i |-> e.i, lab |-> e.lab, exa |-> IF st.hasx THEN e.exa ELSE "-"]
StripAll(st, es) == [n \in 1..Len(es) |-> Strip(st, es[n])]
Accept(st, a) == ~a.bad /\ (st.hasx => (a.hasexa \/ (st.kind = "matrix" /\ \A n \in 1..Len(a.es) : a.es[n].i \in Idx(st.kb))))
After(st, e) ==
  CASE e.op \in {"add", "update"} ->
         IF ~Accept(st, e.a) THEN st
         ELSE [st EXCEPT !.kb = PutAll(@, StripAll(st, e.a.es), st.kind), !.nq = @ + (IF e.op = "update" THEN 1 ELSE 0),
                         !.cost = @ + NewCost(st.kb, e.a.es, st.kind)]
    [] e.op = "discard_i" -> [st EXCEPT !.kb = Drop(@, e.a)]
    [] e.op = "discard_x" -> IF ~st.hasx \/ With(st.kb, e.a) = {} THEN st
          ELSE LET c == {i \in With(st.kb, e.a) : e.post.ok /\ i \notin ToSet(e.post.idx)} IN
               [st EXCEPT !.kb = Drop(@, IF c = {} THEN CHOOSE i \in With(st.kb, e.a) : TRUE ELSE CHOOSE i \in c : TRUE)]
    [] e.op = "clear" -> [st EXCEPT !.kb = <<>>, !.hasx = FALSE, !.cost = 0, !.nq = 0]
    [] OTHER -> st
Obs(p, st) == IF ~p.ok THEN {"observers_raise"} ELSE
  LET kb == st.kb IN
  Bad("indexes", p.idx = [n \in 1..Len(kb) |-> kb[n].i])
  \cup Bad("labels_of_rows", p.labs = [n \in 1..Len(kb) |-> kb[n].lab])
  \cup Bad("examples_of_rows", IF st.hasx THEN p.exas = [n \in 1..Len(kb) |-> kb[n].exa] ELSE p.exas = <<>>)
  \cup Bad("membership", ToSet(p.members) = Idx(kb))
  \cup Bad("lookup_by_index", p.byi = [n \in 1..Len(kb) |-> [i |-> kb[n].i, lab |-> kb[n].lab, exa |-> kb[n].exa]])
  \cup Bad("lookup_by_example", ~st.hasx \/ \A n \in 1..Len(p.byx) : Len(p.byx[n].labs) = 1 /\
             p.byx[n].labs[1] \in {kb[m].lab : m \in {k \in 1..Len(kb) : kb[k].exa = p.byx[n].exa}})
  \cup Bad("cost", p.cost = st.cost /\ p.hcost = st.cost) \cup Bad("number_of_queries", p.nq = st.nq /\ p.hn = st.nq)
SFails(st, e) ==
  LET g == After(st, e) IN Obs(e.post, g) \cup Bad("arguments_unmodified", e.argsame) \cup
  CASE e.op \in {"add", "update"} -> Bad(IF Accept(st, e.a) THEN "accepted" ELSE "rejected", (e.k = "ok") <=> Accept(st, e.a))
         \cup Bad("repeated_reported", st.kind = "matrix" /\ Accept(st, e.a) /\ e.k = "ok" =>
               ((\E n \in 1..Len(e.a.es) : e.a.es[n].i \in Idx(st.kb)) => e.nw > 0))
    [] e.op = "discard_i" -> Bad("accepted", e.k = "ok") \cup Bad("absent_reported", (e.a \in Idx(st.kb)) <=> (e.nw = 0))
    [] e.op = "discard_x" -> IF st.hasx THEN Bad("accepted", e.k = "ok") \cup Bad("absent_reported", (With(st.kb, e.a) # {}) <=> (e.nw = 0))
                             ELSE Bad("rejected", e.k = "err")
    [] e.op = "get_i" -> Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
          LET f == Found(st.kb, e.a) IN
          Bad("retrieved_labels", e.v.lab = [n \in 1..Len(f) |-> st.kb[Row(st.kb, f[n])].lab])
          \cup Bad("retrieved_examples", st.hasx => e.v.exa = [n \in 1..Len(f) |-> st.kb[Row(st.kb, f[n])].exa])
          \cup Bad("absent_reported", (Len(f) = Len(e.a)) <=> (e.nw = 0)))
    [] e.op = "get_x" -> IF ~st.hasx THEN Bad("rejected", e.k = "err") ELSE
          Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
          LET f == SelectSeq(e.a, LAMBDA x : With(st.kb, x) # {}) IN
          Bad("retrieved_labels", Len(e.v.lab) = Len(f) /\ \A n \in 1..Len(f) :
                e.v.lab[n] \in {st.kb[Row(st.kb, i)].lab : i \in With(st.kb, f[n])})
          \cup Bad("absent_reported", (Len(f) = Len(e.a)) <=> (e.nw = 0)))
    [] OTHER -> Bad("accepted", e.k = "ok")
SAfter(st, e) == After(st, e)
=============================================================================
