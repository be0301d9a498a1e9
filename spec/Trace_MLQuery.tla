--------------------------- MODULE Trace_MLQuery ---------------------------
EXTENDS MLQuery, TraceBase
Bad(name, cond) == IF cond THEN {} ELSE {name}
ToSet(s) == {s[j] : j \in DOMAIN s}
SInit(tr) == [k |-> tr.init.k, seen |-> {}, m |-> [ini |-> IF "start" \in DOMAIN tr.init /\ tr.init.start THEN <<<<99, 0, 0>>>> ELSE <<>>, seq |-> <<>>]]
(* known models: the value of label l for instance x after learning the instances T beyond the initial ones *)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Known(e, l, x, s) == e.tab[l][((e.h[1] * x + e.h[2] * s) % 13) + 1]
Row(e, k, x, s) == TLCEval([l \in 1..k |-> Known(e, l, x, s)])
Chosen(e) == [j \in 1..Len(e.sel) |-> e.sel[j][1]]
Instances(e) == IF e.k # "ok" THEN {"returns_a_selection"} ELSE
                IF \E j \in 1..Len(e.sel) : Len(e.sel[j]) # 1 THEN {"returns_a_selection"} ELSE
                IF Len(e.sel) # e.b \/ Cardinality(ToSet(Chosen(e))) # e.b \/ ~(ToSet(Chosen(e)) \subseteq ToSet(e.ids)) THEN {"whole_unlabeled_instances"} ELSE {}
Rest(e, j) == SelectSeq(e.ids, LAMBDA x : \A q \in 1..(j - 1) : e.sel[q][1] # x)
At(P, x) == CHOOSE q \in DOMAIN P : P[q] = x
MmcStep(st, e, j) == LET P == Rest(e, j) s == SumSeq(SubSeq(Chosen(e), 1, j - 1))
                         v == TLCEval([q \in DOMAIN P |-> MmcScore(Row(e, st.k, P[q], s), st.k, e.c)])
                     IN \A q \in DOMAIN P : v[At(P, e.sel[j][1])] >= v[q]
AdaStep(st, e, j) == LET P == Rest(e, j) s == SumSeq(SubSeq(Chosen(e), 1, j - 1))
                         R == TLCEval([q \in DOMAIN P |-> Row(e, st.k, P[q], s)])
                         New == TLCEval([i \in DOMAIN P |-> [q \in DOMAIN P |-> Row(e, st.k, P[q], s + P[i])]])
                     IN AdaptiveRule(R, New, st.k, Len(P), e.c, 1, At(P, e.sel[j][1]))
Outs(st, e) == {p \in st.seen : p[1] = Refit(st.m, e.d, e.n, e.inc).seq}
Select(st, e) ==
  LET U == ToSet(e.pool)
      sel == e.sel
  IN Bad("caller_data_unchanged", e.same) \cup
     (IF e.k # "ok" THEN {"returns_a_selection"} ELSE
      CASE e.kind \in {"pair", "pairs"} ->
             Bad("pairs_of_the_pool", \A q \in ToSet(sel) : Len(q) = 2 /\ q \in U) \cup
             Bad("distinct", Cardinality(ToSet(sel)) = Len(sel)) \cup
             Bad("exact_number", Len(sel) = Min(IF e.kind = "pair" THEN 1 ELSE e.b, Cardinality(U)))
        [] e.kind = "ins" ->
             Bad("whole_unlabeled_instances", \A q \in ToSet(sel) : Len(q) = 1 /\ q[1] \in Whole(U, st.k)) \cup
             Bad("distinct", Cardinality(ToSet(sel)) = Len(sel)) \cup
             Bad("exact_number", Len(sel) = Min(e.b, Cardinality(Whole(U, st.k))))
        [] e.kind = "auro" ->
             Bad("two_unlabeled_labels_of_one_instance", Len(sel) = 3 /\ sel[2] # sel[3] /\ <<sel[1], sel[2]>> \in U /\ <<sel[1], sel[3]>> \in U) \cup
             Bad("most_unlabeled_instance", Len(sel) = 3 /\ \A i \in InsOf(U) : Cardinality(LabOf(U, i)) <= Cardinality(LabOf(U, sel[1]))))
OneOf(e, U) == e.k = "ok" /\ Len(e.sel) = 1 /\ Len(e.sel[1]) = 2 /\ e.sel[1] \in U
Pos(e) == CHOOSE j \in 1..e.n : e.ids[j] = e.sel[1][1]
SFails(st, e) ==
  CASE e.op = "select" -> Select(st, e)
    [] e.op = "quire" -> LET U == ToSet(e.pool) IN
         IF ~OneOf(e, U) THEN {"returns_a_selection"} ELSE
         Bad("worst_case_objective", QuireRule(e.X, e.Y, ToSet(e.S), e.lam, U, e.sel[1]))
    [] e.op = "audi" -> LET U == ToSet(e.pool) IN
         IF ~OneOf(e, U) THEN {"returns_a_selection"} ELSE
         Bad("most_inconsistent_instance", AudiIns(e.card, [j \in 1..e.n |-> Cardinality(LabOf(U, e.ids[j]))], e.tot, e.cnt, e.n, Pos(e))) \cup
         Bad("label_nearest_threshold", NearestLabel([l \in 0..(st.k - 1) |-> e.pres[Pos(e)][l + 1]], e.pres[Pos(e)][st.k + 1], LabOf(U, e.sel[1][1]), e.sel[1][2]))
    [] e.op = "auro" -> LET U == ToSet(e.pool) IN
         IF e.k # "ok" \/ Len(e.sel) # 3 THEN {"returns_a_selection"} ELSE
         IF e.sel[1] \notin InsOf(U) THEN {"two_unlabeled_labels_of_one_instance"} ELSE
         LET p == CHOOSE j \in 1..e.n : e.ids[j] = e.sel[1] IN
         Bad("best_and_nearest_labels", AuroRule(LabOf(U, e.sel[1]), [l \in 0..(st.k - 1) |-> e.pres[p][l + 1]], e.pres[p][st.k + 1], e.sel[2], e.sel[3]))
    [] e.op = "mmc" -> IF Instances(e) # {} THEN Instances(e) ELSE Bad("largest_loss_reduction", \A j \in 1..e.b : MmcStep(st, e, j))
    [] e.op = "adaptive" -> IF Instances(e) # {} THEN Instances(e) ELSE Bad("candidate_with_the_smallest_error", \A j \in 1..e.b : AdaStep(st, e, j))
    [] e.op = "fit" -> IF e.k # "ok" THEN {"fits"} ELSE
         Bad("restarts_or_continues", \A p \in Outs(st, e) : p[2] = e.out) \cup Bad("learns_from_what_it_is_given", \A p \in st.seen \ Outs(st, e) : p[2] # e.out)
         \cup Bad("predicting_does_not_train", e.again = e.out)
    [] e.op = "cover" -> Bad("every_candidate_can_be_selected", e.k = "ok" /\ ToSet(e.seen) = (IF e.kind = "ins" THEN {<<i>> : i \in Whole(ToSet(e.pool), st.k)} ELSE ToSet(e.pool)))
    [] e.op = "order" -> Bad("order_does_not_matter", e.k = "ok" /\ e.sel = e.sel2)
    [] OTHER -> {"unknown_step"}
SAfter(st, e) == IF e.op = "fit" /\ e.k = "ok" THEN [st EXCEPT !.m = Refit(@, e.d, e.n, e.inc), !.seen = @ \cup {<<Refit(st.m, e.d, e.n, e.inc).seq, e.out>>}] ELSE st
=============================================================================
