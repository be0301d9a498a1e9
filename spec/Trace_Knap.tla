----------------------------- MODULE Trace_Knap -----------------------------
EXTENDS Knap, TraceBase
Bad(name, cond) == IF cond THEN {} ELSE {name}
ToSet(s) == {s[j] : j \in DOMAIN s}
SInit(tr) == 0
Flags(e) == {i \in DOMAIN e.flags : e.flags[i] = 1}
Chosen(e, opt) ==
  IF e.k # "ok" THEN {"returns_a_selection"} ELSE
  IF Len(e.flags) # Len(e.v) \/ ~(ToSet(e.flags) \subseteq {0, 1}) THEN {"flags_every_item"} ELSE
  Bad("within_budget", SumOver(Flags(e), e.c) <= e.b) \cup
  Bad("reported_value", e.val = SumOver(Flags(e), e.v)) \cup
  (IF opt THEN Bad("as_good_as_any", e.val = KnapDP(e.v, e.c, e.b)) ELSE {})
CostOf(e, S) == SumOver(S, [q \in S |-> e.cost[q[2] + 1]])
(* budget strategies: pool of pairs, cost per label *)
Pairs(e) ==
  IF e.k # "ok" THEN {"returns_a_selection"} ELSE
  Bad("unlabeled_pairs", \A q \in ToSet(e.sel) : Len(q) = 2 /\ q \in ToSet(e.pool)) \cup
  Bad("distinct", Cardinality(ToSet(e.sel)) = Len(e.sel)) \cup
  (IF \A q \in ToSet(e.sel) : Len(q) = 2 /\ q[2] \in 0..(Len(e.cost) - 1) THEN Bad("within_budget", CostOf(e, ToSet(e.sel)) <= e.b) ELSE {})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
(* worth[i][j]: the informativeness, labels and instances from 1 *)
BestWorth(e, worth) == LET p == SeqOf(ToSet(e.pool)) IN
  KnapDP([t \in 1..Len(p) |-> worth[p[t][1] + 1][p[t][2] + 1]], [t \in 1..Len(p) |-> e.cost[p[t][2] + 1]], e.b)
Optimal(e, worth) == IF e.k = "ok" /\ ToSet(e.sel) \subseteq ToSet(e.pool)
  THEN Bad("as_good_as_any", SumOver(ToSet(e.sel), [q \in ToSet(e.sel) |-> worth[q[1] + 1][q[2] + 1]]) = BestWorth(e, worth)) ELSE {}
Up(S) == {<<q[1] + 1, q[2] + 1>> : q \in S}
HalcWorth(e) == LET L == Up(ToSet(e.L))  U == Up(ToSet(e.pool)) IN
  [i \in 1..Len(e.X) |-> [j \in 1..Len(e.cost) |-> IF <<i, j>> \in U THEN Halc(e.X, e.Y, e.P, L, U, e.W, e.tree, i, j) ELSE 0]]
SFails(st, e) ==
  CASE e.op = "knapsack" -> Chosen(e, TRUE)
    [] e.op = "poss" -> Chosen(e, e.opt)
    [] e.op = "random" -> Bad("caller_data_unchanged", e.same) \cup Pairs(e) \cup
         (IF e.k = "ok" /\ \A j \in DOMAIN e.cost : e.cost[j] = e.cost[1]
          THEN Bad("spends_the_budget", Len(e.sel) = LET m == e.b \div e.cost[1] IN IF m < Len(e.pool) THEN m ELSE Len(e.pool)) ELSE {})
    [] e.op = "performance" -> Bad("caller_data_unchanged", e.same) \cup Pairs(e) \cup (IF e.exact THEN Optimal(e, e.W) ELSE {})
    [] e.op = "halc" -> Bad("caller_data_unchanged", e.same) \cup Pairs(e) \cup (IF e.exact THEN Optimal(e, HalcWorth(e)) ELSE {})
    [] e.op = "mark" -> Bad("caller_data_unchanged", e.same) \cup
         (IF e.k # "ok" THEN {"returns_a_selection"} ELSE
          Bad("implied_labels", Len(e.out) = Cardinality(ToSet(e.out)) /\ ToSet(e.out) = Marked(ToSet(e.Q), ToSet(e.L), e.tree, e.Y)))
    [] e.op = "cover" -> Bad("every_candidate_can_be_selected", e.k = "ok" /\ ToSet(e.seen) = ToSet(e.pool))
    [] OTHER -> {"unknown_step"}
SAfter(st, e) == st
=============================================================================
