----------------------------- MODULE Trace_Split -----------------------------
EXTENDS Split, TraceBase
(* init: [kind, n, K, t, r, all, y, names, folds]
   step "split": k, e, v |-> sequence of [train, test, lab, unlab]; for the pair
   kinds lab/unlab hold <<i>> (whole instance) or <<i, j>>.
   step "load": v |-> what loading returned, after saving the split of this trace;
   step "load_missing": a |-> which file was removed.                          *)
SInit(tr) == [cfg |-> tr.init, saved |-> <<>>]
Bad(name, cond) == IF cond THEN {} ELSE {name}
IsPairs(c) == c.kind \in {"features"}
Pos(c, S) == {(CHOOSE p \in 1..Len(c.names) : c.names[p] = x) - 1 : x \in S}
Fold(c, f) ==
  LET whole == ToSet(c.names)
      m == Len(f.train)
      lab1 == [k \in 1..Len(f.lab) |-> f.lab[k][1]]
      unl1 == [k \in 1..Len(f.unlab) |-> f.unlab[k][1]]
  IN Bad("train_test_partition", PartitionOf(f.train, f.test, whole))
     \cup Bad("train_size", TrainSize(m, c.n, c.t))
     \cup IF ~(ToSet(f.train) \subseteq whole) THEN {} ELSE
       CASE c.kind = "single" ->
              Bad("label_unlabel_partition", PartitionOf(f.lab, f.unlab, ToSet(f.train)))
              \cup Bad("label_size", LabSize(Len(f.lab), m, c.r))
              \cup Bad("all_classes", c.all /\ ToSet(f.lab) \subseteq whole => Classes(c.y, Pos(c, ToSet(f.lab))) = Classes(c.y, 0..(c.n-1)))
         [] c.kind = "single2d" ->
              Bad("label_unlabel_partition", PartitionOf(f.lab, f.unlab, ToSet(f.train)))
              \cup Bad("label_size", LabSize(Len(f.lab), m, c.r))
              \cup Bad("all_classes", c.all /\ ToSet(f.lab) \subseteq whole => Positives(c.y, Pos(c, ToSet(f.lab))) = 1..c.K)
         [] c.kind = "multi" ->
              Bad("entries_are_whole_instances", \A x \in ToSet(f.lab) \cup ToSet(f.unlab) : Len(x) = 1)
              \cup Bad("label_unlabel_partition", PartitionOf(lab1, unl1, ToSet(f.train)))
              \cup Bad("label_size", LabSize(Len(f.lab), m, c.r))
              \cup Bad("all_classes", c.all /\ ToSet(lab1) \subseteq whole => Positives(c.y, Pos(c, ToSet(lab1))) = 1..c.K)
         [] c.kind = "features" ->
              Bad("label_unlabel_partition", PartitionOf(f.lab, f.unlab, ToSet(f.train) \X (0..(c.K-1))))
              \cup Bad("label_size", Near(Len(f.lab), c.r[1] * m * c.K, c.r[2]))
              \cup Bad("all_features", c.all => {x[2] : x \in ToSet(f.lab)} = 0..(c.K-1))
\* number of values an all-class split must cover
Need(c) == IF c.kind = "single" THEN Cardinality(Classes(c.y, 0..(c.n-1))) ELSE c.K
TrainSizes(c) == {m \in 0..c.n : TrainSize(m, c.n, c.t)}
TooFew(c) == \A m \in TrainSizes(c) :
   IF c.kind = "features" THEN \A k \in 0..(m * c.K) : Near(k, c.r[1] * m * c.K, c.r[2]) => k < c.K
   ELSE \A k \in LabSizes(m, c.r) : k < Need(c)
MayRefuse(c) == c.all /\ \E m \in TrainSizes(c) :
   IF c.kind = "features" THEN \E k \in 0..m : Near(k, c.r[1] * m, c.r[2]) /\ k < c.K
   ELSE \E k \in LabSizes(m, c.r) : k < Need(c)
SFails(st, e) ==
  LET c == st.cfg IN
  Bad("arguments_unmodified", e.argsame) \cup
  CASE e.op = "split" ->
         IF c.kind = "given" THEN Bad("accepted", e.k = "ok")      \* the caller's own split, just saved
         ELSE IF e.k = "err" THEN Bad("accepted", MayRefuse(c) /\ e.e = "ValueError")
         ELSE Bad("impossible_request_reported", ~(c.all /\ TooFew(c)))
              \cup Bad("fold_count", Len(e.v) = c.folds)
              \cup UNION {Fold(c, e.v[k]) : k \in 1..Len(e.v)}
              \cup Bad("folds_drawn_independently", (c.folds >= 4 /\ c.n >= 12 /\ Len(e.v) >= 4 /\ \A k \in 1..Len(e.v) : Len(e.v[k].test) >= 3) => \E k \in 2..Len(e.v) : ToSet(e.v[k].test) # ToSet(e.v[1].test))
    [] e.op = "load" ->
         Bad("accepted", e.k = "ok") \cup (IF e.k # "ok" THEN {} ELSE
         Bad("all_parts_present", e.missing = <<>>)
         \cup (IF e.missing # <<>> THEN {} ELSE
               Bad("same_number_of_folds", Len(e.v) = Len(st.saved))
               \cup Bad("same_train", [k \in 1..Len(e.v) |-> e.v[k].train] = [k \in 1..Len(st.saved) |-> st.saved[k].train])
               \cup Bad("same_test", [k \in 1..Len(e.v) |-> e.v[k].test] = [k \in 1..Len(st.saved) |-> st.saved[k].test])
               \cup Bad("same_label", [k \in 1..Len(e.v) |-> e.v[k].lab] = [k \in 1..Len(st.saved) |-> st.saved[k].lab])
               \cup Bad("same_unlabel", [k \in 1..Len(e.v) |-> e.v[k].unlab] = [k \in 1..Len(st.saved) |-> st.saved[k].unlab])
               \cup Bad("index_form_kept", e.forms)))
    [] e.op = "load_missing" ->
         Bad("missing_part_reported", e.k = "err" \/ e.missing = <<e.a>>)
    [] e.op = "load_nodir" -> Bad("refused", e.k = "err")
SAfter(st, e) == IF e.op = "split" /\ e.k = "ok" THEN [st EXCEPT !.saved = e.v] ELSE st
=============================================================================
