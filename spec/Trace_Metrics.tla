-------------------------- MODULE Trace_Metrics --------------------------
EXTENDS Metrics, TraceBase
(* steps: one call of a metric; a: the inputs (scores and weights as integers, w = ones when no weights are given);
   v: the value as a reduced fraction (or sequences of them); vp: the value for the samples in another order *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == 0
Pos(a) == {i \in 1..Len(a.y) : a.y[i] = a.pos}
Between(v, lo, hi) == v[2] > 0 /\ Leq(lo, v) /\ Leq(v, hi)
HasValue(e) ==
  LET a == e.a IN
  CASE a.bad -> FALSE
    [] e.op \in {"roc_auc_score", "roc_curve"} -> Defined(Pos(a), a.s, a.w)
    [] e.op = "micro_auc_score" -> \A j \in 1..Len(a.Y[1]) : LabelDefined(a.Y, a.S, a.w, j)
    [] OTHER -> TRUE
Value(e) ==
  LET a == e.a v == e.v IN
  CASE e.op = "accuracy_score" -> v = Accuracy(a.y, a.p, a.w)
    [] e.op = "zero_one_loss" -> v = ZeroOne(a.y, a.p, a.w)
    [] e.op = "zero_one_count" -> v = <<Wrong(a.y, a.p, a.w), 1>>
    [] e.op = "hamming_loss" -> v = Hamming(a.y, a.p)
    [] e.op = "hamming_loss_ml" -> v = HammingML(a.Y, a.P)
    [] e.op = "f1_score" -> v = F1(a.y, a.p, a.pos)
    [] e.op = "roc_auc_score" -> v = AUC(Pos(a), a.s, a.w)
    [] e.op = "get_fps_tps_thresholds" -> v.fps = Fps(Pos(a), a.s, a.w) /\ v.tps = Tps(Pos(a), a.s, a.w) /\ v.thr = Thresholds(a.s)
    [] e.op = "roc_curve" -> v.x = RocX(Pos(a), a.s, a.w) /\ v.y = RocY(Pos(a), a.s, a.w) /\ v.thr = Thresholds(a.s) /\ v.above
    [] e.op = "precision_recall_curve" -> v.p = Precision(Pos(a), a.s, a.w) /\ v.r = Recall(Pos(a), a.s, a.w) /\ v.thr = PRThresholds(Pos(a), a.s, a.w)
    [] e.op = "coverage_error" -> v = Coverage(a.Y, a.S, a.w)
    [] e.op = "label_ranking_loss" -> v = RankLoss(a.Y, a.S, a.w)
    [] e.op = "label_ranking_average_precision_score" -> v = Lrap(a.Y, a.S, a.w)
    [] e.op = "one_error" -> Between(v, OneErr(a.Y, a.S, a.w, TRUE), OneErr(a.Y, a.S, a.w, FALSE))
    [] e.op = "average_precision_score" -> Ranked(a.Y, a.w) # {} => Between(v, AP(a.Y, a.S, a.w, FALSE), AP(a.Y, a.S, a.w, TRUE))
    [] e.op = "micro_auc_score" -> v = MeanAUC(a.Y, a.S, a.w)
SFails(st, e) ==
  Bad("inputs_unmodified", e.argsame) \cup
  (IF ~HasValue(e) THEN Bad("undefined_refused", e.k = "err")
   ELSE IF e.k # "ok" THEN {"accepted"}
   ELSE Bad("definition", Value(e)) \cup Bad("order_of_samples", e.vpok /\ e.vp = e.v))
SAfter(st, e) == st
=============================================================================
