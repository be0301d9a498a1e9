------------------------------- MODULE Analyse -------------------------------
(* C21: what the analyser reports about recorded folds.
   A fold is [ip: percent or -1, q: seq of [perf: percent, cost]].
   Performances are percents, curves are scaled by 1000 percents, costs (and
   the x axis of cost curves) by 100.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
SumS(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Abs(x) == IF x < 0 THEN -x ELSE x
MinS(s) == Min(ToSet(s))
Perfs(f) == [k \in 1..Len(f.q) |-> f.q[k].perf]
Costs(f) == [k \in 1..Len(f.q) |-> f.q[k].cost]
(* ---- extraction ---- *)
Line(f) == IF f.ip = -1 THEN Perfs(f) ELSE <<f.ip>> \o Perfs(f)
Pairs(f) == [k \in 1..Len(f.q) |-> <<f.q[k].cost, f.q[k].perf>>]
(* ---- curves over the number of queries ---- *)
Common(lines) == MinS([i \in 1..Len(lines) |-> Len(lines[i])])
Column(lines, k) == [i \in 1..Len(lines) |-> lines[i][k]]
WithStart(lines, start) == IF start = -1 THEN lines ELSE [i \in 1..Len(lines) |-> <<start>> \o lines[i]]
Shift(f, start) == IF start = -1 /\ f.ip = -1 THEN 1 ELSE 0
(* the points of the mean curve: x and the column averaged there *)
NumCurve(folds, start, shift, step) ==
  LET ls == WithStart([i \in 1..Len(folds) |-> Line(folds[i])], start)
      n == Common(ls) m == (n + step - 1) \div step IN
  [p \in 1..m |-> [x |-> (p - 1) * step + shift, col |-> Column(ls, (p - 1) * step + 1)]]
(* ---- curves over the accumulated cost ---- *)
Acc(f, start) ==
  LET s0 == IF start # -1 THEN start ELSE f.ip
      c == Costs(f)
      xs == [k \in 1..Len(c) |-> 100 * SumS(SubSeq(c, 1, k))] IN
  IF s0 = -1 THEN [k \in 1..Len(c) |-> [x |-> xs[k], y |-> f.q[k].perf]]
  ELSE <<[x |-> 0, y |-> s0]>> \o [k \in 1..Len(c) |-> [x |-> xs[k], y |-> f.q[k].perf]]
TotalCost(f) == SumS(Costs(f))
Budget(ms) == Min(UNION {{TotalCost(ms[i][j]) : j \in 1..Len(ms[i])} : i \in 1..Len(ms)})
(* linear interpolation, scaled by 1000 *)
At(pts, x) == IF x >= pts[Len(pts)].x THEN 1000 * pts[Len(pts)].y ELSE
  LET k == CHOOSE k \in 1..(Len(pts) - 1) : pts[k].x <= x /\ x < pts[k + 1].x
      a == pts[k] b == pts[k + 1] IN 1000 * a.y + (1000 * (b.y - a.y) * (x - a.x)) \div (b.x - a.x)
Grid0(folds, start) == Max({Acc(folds[i], start)[1].x : i \in 1..Len(folds)})
(* ---- summaries: values scaled by 10 ---- *)
MeanOf(vs) == SumS(vs)
Near(n, sum, F, tol) == Abs(n * F - sum) <= tol * F
StdOk(s, vs, F, tol) == (* s is the standard deviation of vs up to tol *)
  LET V == F * SumS([i \in 1..F |-> vs[i] * vs[i]]) - SumS(vs) * SumS(vs)
      lo == IF s > tol THEN s - tol ELSE 0 IN lo * lo * F * F <= V /\ V <= (s + tol) * (s + tol) * F * F
(* ---- paired t-test on integers: crit is the two-tailed quantile scaled by 1000 ---- *)
Crit(alpha, df) == CASE alpha = 10 -> <<6314, 2920, 2353, 2132, 2015>>[df]
                     [] alpha = 5  -> <<12706, 4303, 3182, 2776, 2571>>[df]
                     [] alpha = 1  -> <<63657, 9925, 5841, 4604, 4032>>[df]    \* the first is too large to be squared here
Diffs(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
(* 1 reject, 0 keep, 2 too close to tell *)
TTest(a, b, crit) ==
  LET d == Diffs(a, b) n == Len(a) s == SumS(d)
      den == n * SumS([i \in 1..n |-> d[i] * d[i]]) - s * s       \* n^2 times the (population) variance
      t2 == s * s * (n - 1) IN
  IF den = 0 THEN (IF s = 0 THEN 0 ELSE 1)
  ELSE LET q == (t2 * 1000) \div den        \* t^2 scaled by 1000
           c2 == (crit * crit) \div 1000 IN
       IF q > c2 + 20 + c2 \div 200 THEN 1 ELSE IF q < c2 - 20 - c2 \div 200 THEN 0 ELSE 2
=============================================================================
