-------------------------------- MODULE Repr --------------------------------
(* C26: strategies which select by an objective over the whole data set.
   Numbers are integers, or fixed-point numbers in units of 10^-6.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sum(f(_), n) == SumSeq([j \in 1..n |-> f(j)])
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
(* a / b in units of 10^-6 (b > 0), without leaving 32 bits *)
RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0 ELSE LET q == (r * 10) \div b m == (r * 10) % b IN q * (10 ^ (n - 1)) + Digits(m, b, n - 1)
Fix(a, b) == LET q == Abs(a) \div b r == Abs(a) % b v == q * 1000000 + Digits(r, b, 6) IN IF a < 0 THEN -v ELSE v
(* ---- QUIRE: L = (K + lambda I)^-1; the candidate s minimises
   L_ss - det(L_aa) / L_ss + 2 |(L_sl - L_su L_uu^-1 L_ul) y_l|
   (l labeled, a the others, u = a without s).  By Jacobi's identity with M = K + lambda I:
   L_ss = det(M without s) / det M, det(L_aa) = det(M_ll) / det M, and the last term is |F| / det(M_l+s)
   where F is the determinant of M_l+s with the column of s replaced by (y_l, 0)        *)
Minor(M, c) == TLCEval([r \in 1..(Len(M) - 1) |-> [d \in 1..(Len(M) - 1) |-> M[r + 1][IF d < c THEN d ELSE d + 1]]])
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE Sum(LAMBDA c : (IF c % 2 = 1 THEN 1 ELSE -1) * M[1][c] * (IF M[1][c] = 0 THEN 0 ELSE Det(Minor(M, c))), Len(M))
Dot(x, y) == Sum(LAMBDA d : x[d] * y[d], Len(x))
Sub(M, s) == TLCEval([r \in 1..Len(s) |-> [c \in 1..Len(s) |-> M[s[r]][s[c]]]])
Gram(X, lam) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(X) |-> Dot(X[i], X[j]) + (IF i = j THEN lam ELSE 0)]])
\* X the training instances, y their labels, L the labeled positions
QuireEval(X, y, L, lam, s) ==
  LET M == Gram(X, lam)
      n == Len(X)
      T == SetSeq(L)
      D == Det(M)
      m == Det(Sub(M, SetSeq((1..n) \ {s})))
      D0 == Det(Sub(M, T))
      A == Append(T, s)
      B == Sub(M, A)
      D1 == Det(B)
      F == Det([r \in 1..Len(A) |-> [c \in 1..Len(A) |-> IF c < Len(A) THEN B[r][c] ELSE IF r < Len(A) THEN y[T[r]] ELSE 0]])
  IN Fix(m, D) - Fix(D0, m) + 2 * Fix(Abs(F), D1)
QuireBest(X, y, L, lam, U, s) == LET v == TLCEval([q \in U |-> QuireEval(X, y, L, lam, q)]) IN \A q \in U : v[s] <= v[q] + 20
(* ---- graph density: the k nearest neighbours (Manhattan distance), made symmetric, weighted by exp(-distance / features) *)
EXPH == <<606531, 367879, 223130, 135335, 82085, 49787, 30197, 18316, 11109, 6738, 4087, 2479, 1503, 912, 553, 335, 203, 123, 75, 45, 28, 17, 10, 6, 4, 2, 1, 1, 1, 0, 0, 0>>
Exp(k, d) == IF k = 0 THEN 1000000 ELSE IF d = 1 THEN (IF 2 * k <= Len(EXPH) THEN EXPH[2 * k] ELSE 0) ELSE IF k <= Len(EXPH) THEN EXPH[k] ELSE 0
L1(x, y) == Sum(LAMBDA j : Abs(x[j] - y[j]), Len(x))
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Metric(x, y, metric) == IF metric = "l1" THEN L1(x, y) ELSE MaxOf({Abs(x[j] - y[j]) : j \in 1..Len(x)})
Closer(X, i, j) == Cardinality({q \in (1..Len(X)) \ {i, j} : L1(X[i], X[q]) < L1(X[i], X[j])})
\* is the k-th nearest neighbour of everyone unique?
Clear(X, k) == \A i \in 1..Len(X) : Cardinality({j \in (1..Len(X)) \ {i} : Closer(X, i, j) < k}) = (IF k < Len(X) THEN k ELSE Len(X) - 1)
Near(X, k, i) == {j \in (1..Len(X)) \ {i} : Closer(X, i, j) < k}
Nbr(X, k, i) == {j \in (1..Len(X)) \ {i} : j \in Near(X, k, i) \/ i \in Near(X, k, j)}
\* N: the neighbours of each instance
Density(X, N, metric) == LET d == Len(X[1]) IN
  [i \in 1..Len(X) |-> SumOf([j \in N[i] |-> Exp(Metric(X[i], X[j], metric), d)], N[i]) \div Cardinality(N[i])]
\* taking i: its neighbours lose its density
Take(D, N, i) == TLCEval([j \in DOMAIN D |-> IF j \in N[i] THEN D[j] - D[i] ELSE D[j]])
Densest(D, P, i, tol) == i \in P /\ \A j \in P : D[i] + tol >= D[j]
\* the densities after some admissible order of taking the set S from the candidates P
RECURSIVE After(_, _, _, _, _)
After(D, N, P, S, tol) == IF S = {} THEN {D} ELSE UNION {After(Take(D, N, i), N, P \ {i}, S \ {i}, tol) : i \in {i \in S : Densest(D, P, i, tol)}}
(* ---- learned active learning: the b greatest predictions *)
Top(v, S, b) == Cardinality(S) = b /\ \A s \in S : \A u \in DOMAIN v \ S : v[s] >= v[u]
\* the features, from the predictions of the trees t[tree][instance] over den: mean, and variance of the trees, proportion of positive labels
Mean(t, i) == Sum(LAMBDA c : t[c][i], Len(t))
\* Len(t)^2 * variance
Var(t, i) == Len(t) * Sum(LAMBDA c : t[c][i] * t[c][i], Len(t)) - Mean(t, i) * Mean(t, i)
=============================================================================
