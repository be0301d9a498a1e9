-------------------------------- MODULE Rank --------------------------------
(* C15: informativeness measures over rational predictions and which selections
   they allow.  A probability is a numerator over a common denominator den; a
   score is an integer proportional to the measure (logarithms in units of
   10^-5, see LnTable), so "at least as informative" is decided by comparing
   integers, up to a tolerance which only covers the rounding of the logarithms. *)
EXTENDS LnTable, FiniteSets
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sum(f(_), n) == SumSeq([j \in 1..n |-> f(j)])
MaxOf(s) == CHOOSE m \in {s[j] : j \in DOMAIN s} : \A j \in DOMAIN s : s[j] <= m
ArgMax(s) == CHOOSE j \in DOMAIN s : \A i \in DOMAIN s : s[i] <= s[j]
Second(s) == LET a == ArgMax(s) IN MaxOf([j \in 1..(Len(s) - 1) |-> IF j < a THEN s[j] ELSE s[j + 1]])
NLogInv(n, den) == IF n = 0 THEN 0 ELSE n * (LN[den] - LN[n])       \* n * ln(den / n)
(* ---- uncertainty of one prediction row *)
LeastConfident(row, den) == den - MaxOf(row)
Margin(row, den) == Second(row) - MaxOf(row)
Entropy(row, den) == Sum(LAMBDA j : NLogInv(row[j], den), Len(row))
Uncertainty(meas, row, den) == CASE meas = "least_confident" -> LeastConfident(row, den)
                                 [] meas = "margin" -> Margin(row, den)
                                 [] meas = "entropy" -> Entropy(row, den)
UTol(meas, den) == IF meas = "entropy" THEN 12 * den ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
(* ---- committee: votes[c][i] a class, or a 0/1 row; proba[c][i] a row *)
Members(V) == {V[j] : j \in DOMAIN V}
VoteEntropy(V, i) == LET m == Len(V)
                         cls == {V[c][i] : c \in 1..m}
                         cnt(x) == Cardinality({c \in 1..m : V[c][i] = x})
                         RECURSIVE S(_)
                         S(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN NLogInv(cnt(x), m) + S(s \ {x})
                     IN S(cls)
VoteEntropyML(V, i) == LET m == Len(V) IN
  Sum(LAMBDA l : NLogInv(Sum(LAMBDA c : V[c][i][l], m), m), Len(V[1][i]))
(* sum over members and classes of p ln(p / consensus), times den *)
KL(P, i) == LET m == Len(P) IN
  Sum(LAMBDA l : LET s == Sum(LAMBDA c : P[c][i][l], m) IN
        Sum(LAMBDA c : IF P[c][i][l] = 0 THEN 0 ELSE P[c][i][l] * (LN[P[c][i][l]] + LN[m] - LN[s]), m), Len(P[1][i]))
(* ---- selections: every selected position is at least as informative as every other one *)
Best(score, n, S, tol) == \A s \in S : \A u \in (1..n) \ S : score[s] + tol >= score[u]
(* ---- distances *)
Dist(x, y, metric) == IF metric = "l1" THEN Sum(LAMBDA j : Abs(x[j] - y[j]), Len(x))
                      ELSE Sum(LAMBDA j : (x[j] - y[j]) * (x[j] - y[j]), Len(x))    \* squared: same order
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
Near(X, i, C, metric) == MinOf({Dist(X[i], X[c], metric) : c \in C})
(* greedy k-centre: the selection, in order, always takes a farthest candidate *)
Greedy(X, L, pool, sel, metric) ==
  \A k \in 1..Len(sel) :
    LET C == L \cup {sel[j] : j \in 1..(k - 1)}
        R == pool \ {sel[j] : j \in 1..(k - 1)}
    IN \A r \in R : Near(X, sel[k], C, metric) >= Near(X, r, C, metric)
=============================================================================
