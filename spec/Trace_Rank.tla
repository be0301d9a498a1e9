----------------------------- MODULE Trace_Rank -----------------------------
EXTENDS Rank, TraceBase
(* every step is one selection from n positions; sel holds the selected positions (1..n) in the order returned *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
ToSet(s) == {s[j] : j \in DOMAIN s}
SInit(tr) == 0
Scores(e) ==
  CASE e.op = "uncertainty" -> [i \in 1..e.n |-> Uncertainty(e.meas, e.P[i], e.den)]
    [] e.op = "boundary" -> [i \in 1..e.n |-> 0 - Abs(e.d[i])]
    [] e.op = "votes" -> [i \in 1..e.n |-> VoteEntropy(e.V, i)]
    [] e.op = "votes_ml" -> [i \in 1..e.n |-> VoteEntropyML(e.V, i)]
    [] e.op = "kl" -> [i \in 1..e.n |-> KL(e.P, i)]
    [] e.op = "density_weighted" ->
         [i \in 1..e.n |-> Uncertainty(e.meas, e.P[i], e.den) *
            (LET d == Sum(LAMBDA j : Dist(e.X[i], e.X[j], "l1"), e.n) IN IF e.beta = 0 THEN 1 ELSE IF e.beta = 1 THEN d ELSE d * d)]
    [] e.op = "eer" ->
         [i \in 1..e.n |-> 0 - Sum(LAMBDA k : e.pv[i][k] * Sum(LAMBDA j : IF j = i THEN 0 ELSE Entropy(e.after[i][k][j], e.den), e.n), Len(e.pv[i]))]
    [] OTHER -> [i \in 1..e.n |-> 0]
Tol(e) ==
  CASE e.op = "uncertainty" -> UTol(e.meas, e.den)
    [] e.op \in {"votes", "votes_ml"} -> 12 * Len(e.V)
    [] e.op = "kl" -> 12 * e.den * Len(e.P)
    [] e.op = "density_weighted" -> UTol(e.meas, e.den) * (IF e.beta = 0 THEN 1 ELSE MaxOf([i \in 1..e.n |-> LET d == Sum(LAMBDA j : Dist(e.X[i], e.X[j], "l1"), e.n) IN IF e.beta = 1 THEN d ELSE d * d]))
    [] e.op = "eer" -> 12 * e.den * e.den * e.n
    [] OTHER -> 0
Ranked(e) == IF e.k # "ok" THEN {"returns_a_selection"} ELSE
   IF ~(ToSet(e.sel) \subseteq 1..e.n) \/ Cardinality(ToSet(e.sel)) # (IF e.b < e.n THEN e.b ELSE e.n) THEN {"a_selection_of_the_pool"} ELSE
   Bad("most_informative", Best(Scores(e), e.n, ToSet(e.sel), Tol(e)))
SFails(st, e) ==
  CASE e.op \in {"uncertainty", "boundary", "votes", "votes_ml", "kl", "density_weighted", "eer"} -> Ranked(e)
    [] e.op = "coreset" ->
        IF e.k # "ok" THEN {"returns_a_selection"} ELSE
        IF ~(ToSet(e.sel) \subseteq ToSet(e.pool)) THEN {"a_selection_of_the_pool"} ELSE
        Bad("farthest_first", Greedy(e.X, ToSet(e.L), ToSet(e.pool), e.sel, e.metric))
    [] e.op = "value_entropy" -> Bad("entropy_value", e.k = "ok" /\ Len(e.v) = Len(e.P) /\ \A i \in 1..Len(e.P) : Abs(e.v[i] * e.den - Entropy(e.P[i], e.den)) <= 12 * e.den)
    [] e.op = "value_votes" -> Bad("vote_entropy_value", e.k = "ok" /\ Len(e.v) = e.n /\ \A i \in 1..e.n : Abs(e.v[i] * Len(e.V) - VoteEntropy(e.V, i)) <= 12 * Len(e.V))
    [] e.op = "value_votes_ml" -> Bad("vote_entropy_value", e.k = "ok" /\ Len(e.v) = e.n /\ \A i \in 1..e.n : Abs(e.v[i] * Len(e.V) - VoteEntropyML(e.V, i)) <= 12 * Len(e.V))
    [] e.op = "random_labels" -> Bad("not_affected_by_labels", e.k = "ok" /\ e.sel = e.sel2)
    [] e.op = "random_cover" -> Bad("every_member_can_be_selected", e.k = "ok" /\ ToSet(e.seen) = ToSet(e.pool))
    [] e.op = "refused" -> Bad("wrong_input_refused", e.k = "err")
    [] OTHER -> {"unknown_step"}
SAfter(st, e) == st
=============================================================================
