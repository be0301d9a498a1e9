------------------------------- MODULE ALRun -------------------------------
(* C20: AlExperiment.  A configuration is
     g = [K: classes, b: batch size, c: stopping criterion (StopCrit), a: strategy parameter,
          y: labels (y[i + 1]), w: weights of the test positions, metric]
   and fold f = [test, L0, U0].  The model the harness supplies is a function
   of the instances AND the labels it was fitted on, and its strategy a
   function of the labeled and unlabeled sets, so that the complete run of a
   fold - selections, performances, when it stops - is a function of the
   configuration: Run.                                                        *)
EXTENDS StopCrit, FiniteSetsExt
SumOf(S, F(_)) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)
Fitted(g, L) == SumOf(L, LAMBDA i : (i + 1) * (g.y[i + 1] + 1))
Predict(g, m, t) == (m * (t + 1) + t) % g.K
(* the weighted number of test instances the model fitted on L is right about *)
Right(g, f, L) == LET m == Fitted(g, L) IN
   FoldSet(LAMBDA n, acc : acc + (IF Predict(g, m, f.test[n]) = g.y[f.test[n] + 1] THEN g.w[n] ELSE 0), 0, 1..Len(f.test))
Total(g, f) == FoldSet(LAMBDA n, acc : acc + g.w[n], 0, 1..Len(f.test))
Perf(g, f, L) == IF g.metric = "accuracy_score" THEN Right(g, f, L) ELSE Total(g, f) - Right(g, f, L)
(* the harness' strategy *)
Rank(g, L, i) == ((g.a * i + SumOf(L, LAMBDA x : x)) % 13) * 1000 + i
Select(g, L, U) == LET s == SetToSortSeq(U, LAMBDA p, q : Rank(g, L, p) < Rank(g, L, q))
                   IN SubSeq(s, 1, IF g.b < Len(s) THEN g.b ELSE Len(s))
Begin(f) == [L0 |-> ToSet(f.L0), U0 |-> ToSet(f.U0), K |-> 0, q |-> <<>>]
Done(g, h) == Stops(g.c, SeeAll(h), 0)
Query(g, f, h) == LET s == Select(g, LabAt(h, Len(h.q)), UnlAt(h, Len(h.q))) IN
                  AddQ(h, [sel |-> s, cost |-> 0, perf |-> Perf(g, f, LabAt(h, Len(h.q)) \cup ToSet(s))])
RECURSIVE RunFrom(_, _, _)
RunFrom(g, f, h) == IF Done(g, h) THEN h ELSE RunFrom(g, f, TLCEval(Query(g, f, h)))
Run(g, f) == RunFrom(g, f, Begin(f))
InitialPoint(g, f) == Perf(g, f, ToSet(f.L0))
=============================================================================
