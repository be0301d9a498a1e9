---------------------------- MODULE Trace_Noisy ----------------------------
EXTENDS Noisy, TraceBase
(* C19.  init: [n: oracles, names, ans: ans[o][i + 1], cost: cost[o][i + 1], eps].
   Abstract state: the set of IEthresh states compatible with what was seen
   (a tied majority is not observable when it happens). *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == [c |-> tr.init, ie |-> {IEInit(tr.init.n)}]
Oracle(c, x) == CHOOSE o \in 1..c.n : c.names[o] = x
Sub(s, t) == ToSet(s) \subseteq ToSet(t)
Answers(c, ns, i) == [k \in 1..Len(ns) |-> c.ans[Oracle(c, ns[k])][i + 1]]
Costs(c, ns, i) == [k \in 1..Len(ns) |-> c.cost[Oracle(c, ns[k])][i + 1]]
Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
AnsTab(c, i) == [o \in 1..c.n |-> c.ans[o][i + 1]]
Asked(c, e) == {Oracle(c, x) : x \in ToSet(e.who)}
WellFormed(st, e) ==
  Bad("one_instance_of_the_pool", Len(e.ins) = 1 /\ Sub(e.ins, e.unl))
  \cup Bad("oracles_of_the_crowd", Len(e.who) > 0 /\ Sub(e.who, st.c.names))
  \cup Bad("no_oracle_twice", Cardinality(ToSet(e.who)) = Len(e.who))
  \cup Bad("data_unchanged", e.same)
  \cup Bad("selection_is_not_charged", ~e.charged)
MostUncertain(e) == \E n \in 1..Len(e.unl) : e.unl[n] = e.ins[1] /\ \A m \in 1..Len(e.unl) : e.pmax[n] <= e.pmax[m]
(* CEAL over the recorded facts: dist[u][a], right[o]: positions of ini labeled right, good[o]: number of label_index labeled right *)
QOf(st, e, o, n) == Q(ToSet(e.right[o]), e.dist[n], e.nb, 100 - e.pmax[n],
                      IF e.ec THEN e.good[o] ELSE st.c.cost[o][e.lab[1] + 1], Len(e.lab), e.ec)
CealBest(st, e) == \E n \in 1..Len(e.unl) : e.unl[n] = e.ins[1] /\
   LET mine == QOf(st, e, Oracle(st.c, e.who[1]), n) IN
   \A o \in 1..st.c.n, m \in 1..Len(e.unl) : Geq(mine, QOf(st, e, o, m), e.exact)
IECompat(st, e) == {s \in st.ie : IESelects(s, st.c.n, st.c.eps, Asked(st.c, e))}
Known(st, e) == e.k = "ok" /\ Sub(e.who, st.c.names) /\ Cardinality(ToSet(e.who)) = Len(e.who) /\ Len(e.who) > 0
IEFails(st, e) == IF Known(st, e) THEN Bad("threshold", IECompat(st, e) # {}) ELSE {"oracles_of_the_crowd"}
SFails(st, e) ==
  CASE e.op = "vote" ->
       Bad("accepted", e.k = "ok") \cup
       (IF e.k # "ok" THEN {} ELSE Bad("winner", e.label \in Winners(e.labels, e.wt))
                                   \cup Bad("count", e.count = Most(e.labels, e.wt)) \cup Bad("data_unchanged", e.same))
    [] e.op = "badvote" -> Bad("refused", e.k = "err")
    [] e.op = "results" ->
       IF ~Sub(e.names, st.c.names) THEN Bad("unknown_refused", e.k = "err")
       ELSE Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
            Bad("their_answers", e.labels = Answers(st.c, e.names, e.i)) \cup Bad("their_costs", e.costs = Costs(st.c, e.names, e.i)))
    [] e.op = "mvote" ->
       IF ~Sub(e.names, st.c.names) THEN Bad("unknown_refused", e.k = "err")
       ELSE Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
            LET a == Answers(st.c, e.names, e.i) o == Ones(Len(e.names)) IN
            Bad("winner", e.label \in Winners(a, o)) \cup Bad("count", e.count = Most(a, o))
            \cup Bad("total_cost", e.cost = Sum(Costs(st.c, e.names, e.i)))
            \cup Bad("charged", ~e.crowd \/ e.charge = Sum(Costs(st.c, e.names, e.i))))
    [] e.op = "ceal" ->
       Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
         LET wf == WellFormed(st, e) \cup Bad("one_oracle", Len(e.who) = 1) IN
         wf \cup (IF wf \cap {"one_instance_of_the_pool", "oracles_of_the_crowd", "one_oracle"} = {} THEN Bad("best_pair", CealBest(st, e)) ELSE {}))
    [] e.op \in {"all", "random", "ie"} ->
       Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
         WellFormed(st, e)
         \cup (IF Len(e.ins) = 1 THEN Bad("most_uncertain", MostUncertain(e)) ELSE {})
         \cup (IF e.op = "all" THEN Bad("all_oracles", ToSet(e.who) = ToSet(st.c.names)) ELSE {})
         \cup (IF e.op = "random" THEN Bad("one_oracle", Len(e.who) = 1) ELSE {})
         \cup (IF e.op = "ie" THEN IEFails(st, e) ELSE {}))
    [] e.op = "iegiven" -> Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE IEFails(st, e))
    [] e.op = "change" -> {}
    [] e.op = "reach" -> Bad("every_oracle_possible", ToSet(e.seen) = ToSet(st.c.names))
    [] e.op = "badcrowd" -> Bad("refused", e.k = "err")
    [] OTHER -> {"unknown_op"}
SAfter(st, e) ==
  IF e.op \in {"ie", "iegiven"} /\ Known(st, e)
  THEN LET i == e.ins[1]
           base == IF IECompat(st, e) = {} THEN st.ie ELSE IECompat(st, e)
       IN [st EXCEPT !.ie = TLCEval(UNION {IENext(s, st.c.n, Asked(st.c, e), i, AnsTab(st.c, i)) : s \in base})]
  ELSE IF e.op = "change" THEN [st EXCEPT !.c.ans = TLCEval([o \in DOMAIN @ |-> [@[o] EXCEPT ![e.i + 1] = e.now[o]]])]
  ELSE st
=============================================================================
