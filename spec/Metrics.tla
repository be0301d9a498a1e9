------------------------------ MODULE Metrics ------------------------------
(* C23: the performance metrics by their combinatorial definitions, in exact
   rational arithmetic.  y: labels; s: integer scores; w: integer weights of
   the samples.  For several labels: Y[i][j] > 0 means label j is relevant
   for sample i.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET g == Gcd(IF n < 0 THEN -n ELSE n, d) IN <<n \div g, d \div g>>
Add(a, b) == Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Mul(a, b) == Q(a[1] * b[1], a[2] * b[2])
Sub1(a) == <<a[2] - a[1], a[2]>>
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
SumQ(q) == FoldSeq(LAMBDA x, acc : Add(x, acc), <<0, 1>>, q)
SumN(q) == FoldSeq(LAMBDA x, acc : x + acc, 0, q)
Ones(n) == [i \in 1..n |-> 1]
WSum(w, S) == SumN([i \in 1..Len(w) |-> IF i \in S THEN w[i] ELSE 0])
Avg(v, w) == Mul(SumQ([i \in 1..Len(v) |-> Mul(<<w[i], 1>>, v[i])]), <<1, SumN(w)>>)
B(p) == IF p THEN <<1, 1>> ELSE <<0, 1>>

(* ---- classification ---- *)
Accuracy(y, p, w) == Avg([i \in 1..Len(y) |-> B(y[i] = p[i])], w)
ZeroOne(y, p, w) == Sub1(Accuracy(y, p, w))
Wrong(y, p, w) == WSum(w, {i \in 1..Len(y) : y[i] # p[i]})
Hamming(y, p) == Avg([i \in 1..Len(y) |-> B(y[i] # p[i])], Ones(Len(y)))
HammingML(Y, P) == Avg([i \in 1..Len(Y) |-> Hamming(Y[i], P[i])], Ones(Len(Y)))
F1(y, p, pos) ==
  LET tp == Cardinality({i \in 1..Len(y) : y[i] = pos /\ p[i] = pos})
      er == Cardinality({i \in 1..Len(y) : (y[i] = pos) # (p[i] = pos)})
  IN IF 2 * tp + er = 0 THEN <<0, 1>> ELSE Q(2 * tp, 2 * tp + er)

(* ---- ranking of samples: P the positive ones ---- *)
Thresholds(s) == SetToSortSeq(ToSet(s), LAMBDA a, b : a > b)
Tps(P, s, w) == LET t == Thresholds(s) IN [n \in 1..Len(t) |-> WSum(w, {i \in P : s[i] >= t[n]})]
Fps(P, s, w) == Tps(DOMAIN s \ P, s, w)
AUC(P, s, w) ==
  LET N == DOMAIN s \ P
      pairs == SetToSeq(P \X N)
      won == SumN([k \in 1..Len(pairs) |-> LET a == pairs[k][1] b == pairs[k][2] IN
                    w[a] * w[b] * (IF s[a] > s[b] THEN 2 ELSE IF s[a] = s[b] THEN 1 ELSE 0)])
  IN Q(won, 2 * WSum(w, P) * WSum(w, N))
Defined(P, s, w) == WSum(w, P) > 0 /\ WSum(w, DOMAIN s \ P) > 0
RocX(P, s, w) == LET f == Fps(P, s, w) IN <<<<0, 1>>>> \o [n \in 1..Len(f) |-> Q(f[n], f[Len(f)])]
RocY(P, s, w) == LET f == Tps(P, s, w) IN <<<<0, 1>>>> \o [n \in 1..Len(f) |-> Q(f[n], f[Len(f)])]
(* trapezoids under the points, twice *)
Area2(x, y) == SumQ([n \in 1..(Len(x) - 1) |-> Mul(Add(x[n + 1], <<-x[n][1], x[n][2]>>), Add(y[n + 1], y[n]))])
(* precision and recall by increasing threshold, from the largest threshold with full recall on, ending at <<1, 0>> *)
PRLast(P, s, w) == LET t == Tps(P, s, w) IN CHOOSE n \in 1..Len(t) : t[n] = t[Len(t)] /\ (n = 1 \/ t[n - 1] # t[n])
Precision(P, s, w) == LET m == PRLast(P, s, w) t == Tps(P, s, w) f == Fps(P, s, w) IN
   [n \in 1..m |-> LET k == m - n + 1 IN IF t[k] + f[k] = 0 THEN <<0, 1>> ELSE Q(t[k], t[k] + f[k])] \o <<<<1, 1>>>>
Recall(P, s, w) == LET m == PRLast(P, s, w) t == Tps(P, s, w) IN [n \in 1..m |-> Q(t[m - n + 1], t[Len(t)])] \o <<<<0, 1>>>>
PRThresholds(P, s, w) == LET m == PRLast(P, s, w) t == Thresholds(s) IN [n \in 1..m |-> t[m - n + 1]]

(* ---- ranking of the labels of one sample ---- *)
Rel(y) == {j \in 1..Len(y) : y[j] > 0}
Above(s, j, J) == {k \in J : s[k] >= s[j]}
Rank(s, j) == Cardinality(Above(s, j, DOMAIN s))
Plain(y) == Rel(y) = {} \/ Rel(y) = DOMAIN y
CoverageRow(y, s) == IF Rel(y) = {} THEN <<0, 1>> ELSE <<Max({Rank(s, j) : j \in Rel(y)}), 1>>
RankLossRow(y, s) == IF Plain(y) THEN <<0, 1>> ELSE
  Q(Cardinality({ab \in Rel(y) \X (DOMAIN y \ Rel(y)) : s[ab[1]] <= s[ab[2]]}), Cardinality(Rel(y)) * Cardinality(DOMAIN y \ Rel(y)))
LrapRow(y, s) == IF Plain(y) THEN <<1, 1>> ELSE
  LET r == SetToSeq(Rel(y)) IN Avg([n \in 1..Len(r) |-> Q(Cardinality(Above(s, r[n], Rel(y))), Rank(s, r[n]))], Ones(Len(r)))
(* ties broken in favour of / against the relevant labels *)
Before(y, s, fav, j, k) == s[k] > s[j] \/ (s[k] = s[j] /\ (y[k] > 0) = fav /\ (y[j] > 0) # fav) \/ (s[k] = s[j] /\ (y[k] > 0) = (y[j] > 0) /\ k <= j)
APRow(y, s, fav) ==
  LET r == SetToSeq(Rel(y)) IN
  Avg([n \in 1..Len(r) |-> Q(Cardinality({k \in Rel(y) : Before(y, s, fav, r[n], k)}),
                              Cardinality({k \in DOMAIN y : Before(y, s, fav, r[n], k)}))], Ones(Len(r)))
Top(s) == {j \in DOMAIN s : \A k \in DOMAIN s : s[k] <= s[j]}
OneErrRow(y, s, fav) == B(IF fav THEN Top(s) \cap Rel(y) = {} ELSE ~(Top(s) \subseteq Rel(y)))

Coverage(Y, S, w) == Avg([i \in 1..Len(Y) |-> CoverageRow(Y[i], S[i])], w)
RankLoss(Y, S, w) == Avg([i \in 1..Len(Y) |-> RankLossRow(Y[i], S[i])], w)
Lrap(Y, S, w) == Avg([i \in 1..Len(Y) |-> LrapRow(Y[i], S[i])], w)
OneErr(Y, S, w, fav) == Avg([i \in 1..Len(Y) |-> OneErrRow(Y[i], S[i], fav)], w)
Ranked(Y, w) == {i \in 1..Len(Y) : ~Plain(Y[i]) /\ w[i] > 0}
AP(Y, S, w, fav) == LET r == SetToSeq(Ranked(Y, w)) IN Avg([n \in 1..Len(r) |-> APRow(Y[r[n]], S[r[n]], fav)], [n \in 1..Len(r) |-> w[r[n]]])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
LabelAUC(Y, S, w, j) == AUC({i \in 1..Len(Y) : Y[i][j] > 0}, Col(S, j), w)
LabelDefined(Y, S, w, j) == Defined({i \in 1..Len(Y) : Y[i][j] > 0}, Col(S, j), w)
MeanAUC(Y, S, w) == Avg([j \in 1..Len(Y[1]) |-> LabelAUC(Y, S, w, j)], Ones(Len(Y[1])))
=============================================================================
