--------------------------- MODULE Trace_Analyse ---------------------------
EXTENDS Analyse, TraceBase
(* C21.  State: the methods of an analyser, in order: [name, kind, folds].
   kind: "io" (StateIO objects, a container or files) or "list".
   init: [mode |-> "num" / "cost"]                                           *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == [mode |-> tr.init.mode, ms |-> <<>>, allio |-> TRUE]
Find(ms, n) == {i \in 1..Len(ms) : ms[i].name = n}
Put(ms, m) == LET f == Find(ms, m.name) IN
   IF f = {} THEN Append(ms, m) ELSE [ms EXCEPT ![CHOOSE i \in f : TRUE] = m]
SAfter(st, e) == IF e.op = "add" /\ e.k = "ok"
   THEN [st EXCEPT !.ms = Put(@, [name |-> e.name, kind |-> e.kind, folds |-> e.folds]), !.allio = @ /\ e.kind = "io"]
   ELSE st
M(st, n) == st.ms[CHOOSE i \in Find(st.ms, n) : TRUE]
Has(st, n) == Find(st.ms, n) # {}
NF(m) == Len(m.folds)
(* ---- extracted lines ---- *)
LineOf(st, f) == IF st.mode = "num" THEN Line(f) ELSE Pairs(f)
(* ---- settings ---- *)
Lens(m) == [i \in 1..NF(m) |-> Len(m.folds[i].q)]
EffLen(m) == MinS(Lens(m))
Batches(m) == UNION {{m.folds[i].q[k].bs : k \in 1..(Len(m.folds[i].q) - 1)} : i \in 1..NF(m)}
BatchOf(m) == IF Cardinality(Batches(m)) = 1 THEN CHOOSE x \in Batches(m) : TRUE ELSE 0
Sameset(ms) == \A i, j \in 1..Len(ms) : /\ BatchOf(ms[i]) = BatchOf(ms[j]) /\ EffLen(ms[i]) = EffLen(ms[j])
                                        /\ NF(ms[i]) = NF(ms[j]) /\ (ms[i].folds[1].ip = -1) = (ms[j].folds[1].ip = -1)
(* ---- curves ---- *)
NumFails(st, e, m, c) ==
  LET sh == IF e.given THEN e.shift ELSE Shift(m.folds[1], e.start)
      w == NumCurve(m.folds, e.start, sh, e.step) F == NF(m) IN
  IF Len(c.xs) # Len(w) \/ Len(c.ys) # Len(w) THEN {"one_point_per_query"}
  ELSE Bad("x_axis", \A p \in 1..Len(w) : c.xs[p] = 100 * w[p].x)
       \cup Bad("mean_of_folds", \A p \in 1..Len(w) : Near(c.ys[p], 1000 * SumS(w[p].col), F, 2))
       \cup (IF ~e.std THEN {} ELSE
             IF Len(c.sd) # Len(w) THEN {"std_points"} ELSE
             Bad("std_of_folds", \A p \in 1..Len(w) : StdOk(c.sd[p], [i \in 1..F |-> 10 * w[p].col[i]], F, 1)))
CostFails(st, e, m, c) ==
  LET F == NF(m)
      acc == TLCEval([i \in 1..F |-> Acc(m.folds[i], e.start)])
      B == 100 * Budget([i \in 1..Len(st.ms) |-> st.ms[i].folds])
      iv == IF e.step = 0 THEN B \div 100 ELSE 100 * e.step
      g0 == Grid0(m.folds, e.start)
      n == IF B <= g0 THEN 0 ELSE (B - g0 + iv - 1) \div iv
      sh == 100 * e.shift
      X(p) == g0 + (p - 1) * iv
      vs(p) == TLCEval([i \in 1..F |-> At(acc[i], X(p))]) IN
  IF Len(c.xs) # Len(c.ys) \/ ~(Len(c.xs) = n \/ (Len(c.xs) = n + 1 /\ X(n + 1) = B)) THEN {"one_point_per_interval"}
  ELSE Bad("x_axis", \A p \in 1..Len(c.xs) : Abs(c.xs[p] - (X(p) + sh)) <= 1)
       \cup Bad("mean_of_folds", \A p \in 1..Len(c.xs) : Near(c.ys[p], SumS(vs(p)), F, 3))
       \cup (IF ~e.std THEN {} ELSE
             IF Len(c.sd) # Len(c.xs) THEN {"std_points"} ELSE
             Bad("std_of_folds", \A p \in 1..Len(c.xs) : StdOk(c.sd[p], [i \in 1..F |-> vs(p)[i] \div 100], F, 3)))
PlotFails(st, e) ==
  IF e.k # "ok" THEN {"accepted"} ELSE
  Bad("one_curve_per_method", [i \in 1..Len(e.curves) |-> e.curves[i].label] = [i \in 1..Len(st.ms) |-> st.ms[i].name])
  \cup (IF Len(e.curves) # Len(st.ms) THEN {} ELSE
        UNION {IF st.mode = "num" THEN NumFails(st, e, st.ms[i], e.curves[i]) ELSE CostFails(st, e, st.ms[i], e.curves[i]) : i \in 1..Len(st.ms)})
  \cup Bad("saved", e.saved = e.asked)
  \cup Bad("shaded_only_when_asked", e.shades = IF e.std THEN Len(st.ms) ELSE 0) \cup Bad("title", e.titled)
  \cup (IF st.mode = "num" /\ st.allio THEN Bad("warns_about_settings", e.warned = ~Sameset(st.ms)) ELSE {})
(* ---- table: mean scaled by 1000, std by 100 ---- *)
Lcm == 12
RowFails(st, m, r) ==
  LET F == NF(m) n == EffLen(m)
      own == m.kind = "io"
      pairs == ~own /\ st.mode = "cost"
      vals(i) == IF own THEN (IF m.folds[i].ip = -1 THEN <<>> ELSE <<m.folds[i].ip>>) \o SubSeq(Perfs(m.folds[i]), 1, n)
                 ELSE IF pairs THEN Perfs(m.folds[i]) ELSE SubSeq(Perfs(m.folds[i]), 1, n)
      len == Len(vals(1))
      fm == [i \in 1..F |-> (SumS(vals(i)) * Lcm) \div Len(vals(i))]      \* fold means scaled by Lcm
      flat == FoldSeq(LAMBDA a, b : b \o a, <<>>, [i \in 1..F |-> vals(F + 1 - i)]) IN
  Bad("row_folds", r.folds = F)
  \cup (IF pairs THEN Bad("row_mean", Near(r.mean * Lcm, 10 * SumS(fm), F, 10 * Lcm)) \cup Bad("row_std", StdOk(r.sd * Lcm, fm, F, Lcm))
        ELSE IF own THEN Bad("row_mean", Near(r.mean * len, 10 * SumS([i \in 1..F |-> SumS(vals(i))]), F, len))
             \cup Bad("row_std", StdOk(r.sd * len, [i \in 1..F |-> SumS(vals(i))], F, len))
        ELSE Bad("row_mean", Near(r.mean, 10 * SumS(flat), Len(flat), 1)) \cup Bad("row_std", StdOk(r.sd, flat, Len(flat), 1)))
  \cup (IF st.mode = "num" THEN
           Bad("row_queries", r.queries = n)
           \cup (IF st.allio /\ MinS(Lens(m)) > 1 THEN Bad("row_batch", r.batch = BatchOf(m)) ELSE {})
        ELSE LET t == {TotalCost(m.folds[i]) : i \in 1..F} IN
             Bad("row_budget", r.budget = IF Cardinality(t) = 1 THEN 100 * (CHOOSE x \in t : TRUE) ELSE 0))
TableFails(st, e) ==
  IF e.k # "ok" THEN {"accepted"}
  ELSE IF [i \in 1..Len(e.rows) |-> e.rows[i].name] # [i \in 1..Len(st.ms) |-> st.ms[i].name] THEN {"one_row_per_method"}
  ELSE UNION {RowFails(st, st.ms[i], e.rows[i]) : i \in 1..Len(st.ms)}
(* ---- containers ---- *)
ExtractFails(e) ==
  IF e.k # "ok" THEN {"accepted"} ELSE
  CASE e.keys = "performance" -> Bad("extracted", e.lines = [i \in 1..Len(e.folds) |-> Line(e.folds[i])])
    [] e.keys = "cost" -> Bad("extracted", e.lines = [i \in 1..Len(e.folds) |-> Costs(e.folds[i])])
    [] e.keys = "select_index" -> Bad("extracted", e.lines = [i \in 1..Len(e.folds) |-> [k \in 1..Len(e.folds[i].q) |-> e.folds[i].q[k].sel]])
    [] e.keys = "pair" -> Bad("extracted", e.lines = [i \in 1..Len(e.folds) |-> Pairs(e.folds[i])])
    [] e.keys = "back" -> Bad("extracted", e.lines = [i \in 1..Len(e.folds) |-> [k \in 1..Len(e.folds[i].q) |-> <<e.folds[i].q[k].perf, e.folds[i].q[k].cost>>]])
    [] OTHER -> {"unknown_keys"}
ViewFails(e) ==
  IF e.k # "ok" THEN {"accepted"} ELSE
  LET w == [i \in 1..Len(e.folds) |-> [k \in 1..Len(e.folds[i].q) |-> e.folds[i].q[k].sel]] IN
  Bad("holds_every_fold", e.v.n = Len(w) /\ e.v.iter = w /\ e.v.item = w /\ e.v.list = w) \cup Bad("list_is_a_copy", e.v.after = w)
SFails(st, e) ==
  CASE e.op = "views" -> ViewFails(e)
    [] e.op = "add" -> Bad("accepted", e.k = "ok")
    [] e.op = "refused" -> Bad("refused", e.k = "err")
    [] e.op = "names" -> Bad("names", e.k = "ok" /\ e.v = [i \in 1..Len(st.ms) |-> st.ms[i].name])
    [] e.op = "data" -> IF e.k # "ok" THEN {"accepted"}
                        ELSE Bad("data", e.lines = [i \in 1..NF(M(st, e.name)) |-> LineOf(st, M(st, e.name).folds[i])])
    [] e.op = "plot" -> PlotFails(st, e)
    [] e.op = "table" -> TableFails(st, e)
    [] e.op = "extract" -> ExtractFails(e)
    [] e.op = "ttest" -> IF e.k # "ok" THEN {"accepted"}
                         ELSE Bad("ttest", TTest(e.a, e.b, Crit(e.alpha, Len(e.a) - 1)) \in {2, e.h}) \cup Bad("ttest_symmetric", e.h = e.h2)
    [] e.op = "crash" -> {}
    [] OTHER -> {"unknown_op"}
=============================================================================
