-------------------------- MODULE Trace_ToolBox --------------------------
EXTENDS ToolBox, TraceBase
(* init: [data: <<data set>>, paths: number of paths]
   post: [ok, hs: <<[split, y, qt, q]>>, files: <<[have, split, y]>>]; y: what the clean oracle answers for every row *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == [data |-> tr.init.data, hs |-> <<>>, files |-> [p \in 1..tr.init.paths |-> NoFile]]
Dat(st, h) == st.data[h.d]
Norm(f) == [tr |-> f.tr, te |-> f.te, L |-> ToSet(f.L), U |-> ToSet(f.U)]
Same(s, t) == Len(s) = Len(t) /\ \A n \in 1..Len(s) : Norm(s[n]) = Norm(t[n])
After(st, e) ==
  IF e.k # "ok" THEN st ELSE
  CASE e.op = "create" -> [st EXCEPT !.hs = Append(@, Created(st.files, e.a.d, e.a.path, e.a.given)),
                                     !.files = CreateFiles(@, e.a.d, e.a.path, e.a.given)]
    [] e.op = "split" -> [st EXCEPT !.hs[e.a.h] = Split(@, e.v), !.files = SplitFiles(@, st.hs[e.a.h], e.v)]
    [] e.op = "save" -> [st EXCEPT !.files = Write(@, st.hs[e.a.h])]
    [] e.op = "load" -> [st EXCEPT !.hs = Append(@, OfFile(st.files[e.a.path]))]
    [] OTHER -> st
Answers(D) == IF D.kind = "feat" THEN D.x ELSE D.y
Obs(p, st) == IF ~p.ok THEN {"observers_raise"} ELSE
  Bad("tool_boxes", Len(p.hs) = Len(st.hs) /\ Len(p.files) = Len(st.files))
  \cup (IF Len(p.hs) # Len(st.hs) THEN {} ELSE UNION {
        Bad("split_kept", Same(p.hs[n].split, st.hs[n].split))
        \cup Bad("labels_kept", p.hs[n].y = Answers(Dat(st, st.hs[n])))
        \cup Bad("query_type_kept", p.hs[n].qt = Dat(st, st.hs[n]).qt) : n \in 1..Len(st.hs)})
  \cup UNION {Bad("file_exists", p.files[n].have = st.files[n].have)
        \cup (IF ~p.files[n].have \/ ~st.files[n].have THEN {} ELSE
              Bad("file_has_the_split", Same(p.files[n].split, st.files[n].split))
              \cup Bad("file_has_the_labels", p.files[n].y = Answers(st.data[st.files[n].d]))) : n \in 1..Len(p.files)}
SFails(st, e) ==
  LET g == After(st, e)
      h == IF "h" \in DOMAIN e.a THEN st.hs[e.a.h] ELSE NoFile
      D == IF "h" \in DOMAIN e.a THEN Dat(st, h) ELSE [kind |-> "none"]
      r == IF "round" \in DOMAIN e.a THEN e.a.round ELSE 0
      f == h.split[r + 1] IN
  Obs(e.post, g) \cup
  CASE e.op = "bad" -> Bad("refused", e.k = "err")
    [] e.k # "ok" -> {"accepted"}
    [] e.op = "split" ->
         IF h.split # <<>> THEN Bad("existing_split_returned", Same(e.v, h.split))
         ELSE Bad("number_of_folds", Len(e.v) = e.a.count) \cup Bad("sound_split", \A n \in 1..Len(e.v) : Sound(D, e.v[n]))
              \cup Bad("all_classes", e.a.all => \A n \in 1..Len(e.v) : Covers(D, e.v[n]))
              \cup Bad("sizes_of_the_split", \A n \in 1..Len(e.v) : Sized(D, e.v[n], e.a.test, e.a.rate))
    [] e.op = "get" -> Bad("fold_of_the_split", Norm(e.v) = Norm(f))
    [] e.op = "stateio" -> Bad("fold_of_the_split", Norm(e.v.fold) = Norm(f)) \cup Bad("round", e.v.round = r)
                           \cup Bad("initial_fold", Norm(e.v.init) = Norm(f))
    [] e.op = "repo" -> Bad("labeled_knowledge", ToSet(e.v.rows) = Known(D, f, e.a.inst) /\ Len(e.v.rows) = Cardinality(Known(D, f, e.a.inst)))
                        \cup Bad("kind_of_repository", e.v.kind = Repository(D))
    [] e.op = "oracle" ->
         Bad("answers", e.v.lab = [n \in 1..Len(e.a.q) |->
             IF e.a.q[n].j = 0 THEN (IF D.kind = "feat" THEN D.x ELSE D.y)[Row(D, e.a.q[n].i)] ELSE D.cells[Row(D, e.a.q[n].i)][e.a.q[n].j]])
         \cup Bad("costs", e.v.cost = [n \in 1..Len(e.a.q) |->
             LET c == e.a.cost[Row(D, e.a.q[n].i)] IN IF e.a.q[n].j = 0 THEN c ELSE <<c[e.a.q[n].j]>>])
    [] e.op = "ace" -> Bad("rounds", Len(e.v.folds) = Len(h.split)) \cup Bad("saved_where_asked", e.v.there) \cup
         (IF Len(e.v.folds) # Len(h.split) THEN {} ELSE
          Bad("folds_of_the_split", \A n \in 1..Len(e.v.folds) : Norm(e.v.folds[n].fold) = Norm(h.split[n]))
          \cup Bad("data_of_the_tool_box", \A n \in 1..Len(e.v.folds) : e.v.folds[n].x = D.x /\ e.v.folds[n].y = D.y))
    [] e.op = "strategy" -> Bad("selects_unlabeled", Len(e.v) > 0 /\ ToSet(e.v) \subseteq ToSet(f.U))
    [] e.op = "same" -> Bad(e.a.what, e.v.got = e.v.want)
    [] OTHER -> {}
SAfter(st, e) == After(st, e)
=============================================================================
