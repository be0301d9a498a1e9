----------------------------- MODULE Trace_Feat -----------------------------
EXTENDS Feat, TraceBase
Bad(name, cond) == IF cond THEN {} ELSE {name}
ToSet(s) == {s[j] : j \in DOMAIN s}
SInit(tr) == 0
Close(a, b, tol) == a = b \/ Abs(a - b) <= tol
(* out, out2: completions (scaled by 1000) of two matrices which differ in the unobserved entries only *)
Complete(e) ==
  IF e.k # "ok" THEN {"returns_a_matrix"} ELSE
  LET I == DOMAIN e.X  J == DOMAIN e.X[1]
      ok == Len(e.out) = Len(e.X) /\ \A i \in I : Len(e.out[i]) = Len(e.X[1])
  IN IF ~ok THEN {"shape"} ELSE
     Bad("observed_unchanged", \A i \in I, j \in J : e.mask[i][j] = 1 => e.out[i][j] = e.X[i][j] * 1000) \cup
     Bad("within_limits", \A i \in I, j \in J : e.mask[i][j] = 0 => e.out[i][j] >= e.lo /\ e.out[i][j] <= e.hi) \cup
     Bad("hidden_not_used", e.k2 = "ok" /\ \A i \in I, j \in J : Close(e.out[i][j], e.out2[i][j], 50 + Abs(e.out[i][j]) \div 100)) \cup
     Bad("real_values", e.real) \cup Bad("caller_data_unchanged", e.same)
SFails(st, e) ==
  CASE e.op = "complete" -> Complete(e)
    [] e.op = "forms" -> Bad("index_forms_agree", e.k = "ok" /\ e.out = e.out2)
    [] e.op = "select" ->
        Bad("caller_data_unchanged", e.same) \cup
        (IF e.k # "ok" THEN {"returns_a_selection"} ELSE
         Bad("missing_entries_of_the_pool", \A q \in ToSet(e.sel) : Len(q) = 2 /\ q \in ToSet(e.pool)) \cup
         Bad("distinct", Cardinality(ToSet(e.sel)) = Len(e.sel)) \cup
         Bad("exact_number", Len(e.sel) = Due(e.b, Cardinality(ToSet(e.pool)), e.one)) \cup
         Bad("hidden_not_used", e.sel = e.sel2) \cup
         (IF e.scores # <<>> /\ Len(e.sel) = 1 /\ \E p \in DOMAIN e.pool : e.pool[p] = e.sel[1]
          THEN Bad("largest_variance", LET p == CHOOSE p \in DOMAIN e.pool : e.pool[p] = e.sel[1] IN e.scores[p] >= e.least) ELSE {}))
    [] e.op = "cover" -> Bad("every_candidate_can_be_selected", e.k = "ok" /\ ToSet(e.seen) = ToSet(e.pool))
    [] e.op = "same" -> IF e.k # "ok" THEN {"returns_a_matrix"} ELSE
         IF SameBinds(e.f, e.x, e.y, e.q, e.L1, e.L2)
         THEN Bad("optimal_completion", \A i \in DOMAIN e.out : SameValue(e.f, e.x, e.y, e.q, e.L1, e.L2, e.out[i])) ELSE {}
    [] e.op = "fit" -> IF e.k # "ok" THEN {"returns_a_matrix"} ELSE Bad("optimal_completion", FitsRegression(e.X, e.mask, e.y, e.out))
    [] e.op = "rankone" -> IF e.k # "ok" THEN {"returns_a_matrix"} ELSE Bad("completes_the_rank", RankOne(e.out))
    [] OTHER -> {"unknown_step"}
SAfter(st, e) == st
=============================================================================
