---------------------------- MODULE Trace_ALRun ----------------------------
EXTENDS ALRun, TraceBase
(* C20.  init: [g, folds].  The runs of all folds are computed once.
   steps: fit [rows, labs], select [L, U, b], result [kind, folds], refused [k] *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == [g |-> tr.init.g, fs |-> tr.init.folds,
              limit |-> 0, fits |-> [i \in 1..Len(tr.init.folds) |-> 0],
              runs |-> IF tr.init.det THEN TLCEval([i \in 1..Len(tr.init.folds) |-> Run(tr.init.g, tr.init.folds[i])]) ELSE <<>>]
FoldOf(st, e) == {i \in 1..Len(st.fs) : ToSet(e.rows) \subseteq ToSet(st.fs[i].train)}
SAfter(st, e) == CASE e.op = "start" -> [st EXCEPT !.limit = e.limit, !.fits = [i \in DOMAIN @ |-> 0]]
                   [] e.op = "fit" -> [st EXCEPT !.fits = [i \in DOMAIN @ |-> @[i] + (IF i \in FoldOf(st, e) THEN 1 ELSE 0)]]
                   [] OTHER -> st
(* a fold is under way between its first fit and its last one *)
UnderWay(st) == {i \in 1..Len(st.fs) : st.fits[i] > 0 /\ st.fits[i] < Len(st.runs[i].q) + 1}
Labeled(st) == UNION {{LabAt(st.runs[i], k) : k \in 0..Len(st.runs[i].q)} : i \in 1..Len(st.runs)}
SetOf(s) == ToSet(s)
Hist(st, i, r) == [L0 |-> SetOf(st.fs[i].L0), U0 |-> SetOf(st.fs[i].U0), K |-> 0,
                   q |-> [k \in 1..Len(r.q) |-> [sel |-> r.q[k].sel, cost |-> 0, perf |-> r.q[k].perf]]]
Valid(st, h) == \A k \in 1..Len(h.q) :
   /\ SetOf(h.q[k].sel) \subseteq UnlAt(h, k - 1)
   /\ Cardinality(SetOf(h.q[k].sel)) = Len(h.q[k].sel)
   /\ Len(h.q[k].sel) = IF st.g.b < Cardinality(UnlAt(h, k - 1)) THEN st.g.b ELSE Cardinality(UnlAt(h, k - 1))
(* the confidence of the harness' model about instance i *)
Conf(g, m, i) == 50 + ((m * (i + 1)) % 50)
Uncertain(st, h) == \A k \in 1..Len(h.q) : LET m == Fitted(st.g, LabAt(h, k - 1)) IN
   \A x \in SetOf(h.q[k].sel), z \in UnlAt(h, k - 1) \ SetOf(h.q[k].sel) : Conf(st.g, m, x) <= Conf(st.g, m, z)
Cut(h, k) == [h EXCEPT !.q = SubSeq(@, 1, k)]
StopsRight(st, h) == /\ Done(st.g, h)
                     /\ \A k \in 0..(Len(h.q) - 1) : ~Done(st.g, Cut(h, k))
FoldFails(st, e, i) ==
  LET r == e.folds[i] f == st.fs[i] h == Hist(st, i, r) IN
  Bad("own_split", r.round = i - 1 /\ SetOf(r.train) = SetOf(f.train) /\ r.test = f.test /\ SetOf(r.L0) = SetOf(f.L0) /\ SetOf(r.U0) = SetOf(f.U0))
  \cup Bad("queries_pool_in_batches", Valid(st, h))
  \cup (IF ~Valid(st, h) THEN {} ELSE
        Bad("initial_point", r.ini = InitialPoint(st.g, f))
        \cup Bad("own_performance", \A k \in 1..Len(h.q) : h.q[k].perf = Perf(st.g, f, LabAt(h, k)))
        \cup Bad("stops_as_configured", StopsRight(st, h))
        \cup Bad("workspace", SetOf(r.L) = LabAt(h, Len(h.q)) /\ SetOf(r.U) = UnlAt(h, Len(h.q)))
        \cup (IF e.kind = "det" THEN Bad("runs_as_alone", h = st.runs[i]) ELSE {})
        \cup (IF e.kind = "unc" THEN Bad("current_model", Uncertain(st, h)) ELSE {}))
SFails(st, e) ==
  CASE e.op = "fit" -> Bad("fitted_on_labeled", SetOf(e.rows) \in Labeled(st))
                       \cup Bad("own_labels", \A n \in 1..Len(e.rows) : e.labs[n] = st.g.y[e.rows[n] + 1])
                       \cup Bad("thread_limit", st.limit = 0 \/ \A i \in FoldOf(st, e) : Cardinality(UnderWay(st) \cup {i}) <= st.limit)
                       \cup Bad("fitted_once_each", Cardinality(SetOf(e.rows)) = Len(e.rows))
    [] e.op = "select" -> Bad("batch_size", e.b = st.g.b) \cup Bad("parameters", e.kw)
         \cup Bad("current_sets", \E i \in 1..Len(st.runs) : \E k \in 0..(Len(st.runs[i].q) - 1) :
                    SetOf(e.L) = LabAt(st.runs[i], k) /\ SetOf(e.U) = UnlAt(st.runs[i], k))
    [] e.op = "result" ->
         Bad("accepted", e.k = "ok") \cup
         (IF e.k # "ok" THEN {} ELSE IF Len(e.folds) # Len(st.fs) THEN {"one_result_per_fold"}
          ELSE UNION {FoldFails(st, e, i) : i \in 1..Len(st.fs)})
    [] e.op = "itself" -> Bad("strategy_as_configured", e.sels = e.ref)
    [] e.op = "start" -> {}
    [] e.op = "split" -> Bad("accepted", e.k = "ok")
    [] e.op = "refused" -> Bad("refused", e.k = "err")
    [] e.op = "crash" -> {}
    [] OTHER -> {"unknown_op"}
=============================================================================
