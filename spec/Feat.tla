-------------------------------- MODULE Feat --------------------------------
(* C18: feature acquisition.  A cell (instance, feature) is observed or hidden;
   a strategy asks for hidden cells of its pool; acquiring a cell reveals it.
   Two worlds which agree on the observed cells must be indistinguishable to
   every completion and every strategy.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Min(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Due(b, n, one) == IF one THEN Min(1, n) ELSE Min(b, n)
(* ---- what the completions compute, where the optimum has a closed form
   AFASMC minimises 1/2 |observed part of Z - X|^2 + lambda2 / n |Zw + b - y|^2 + lambda1 * (trace norm of Z), w and b from the
   least-squares regression of y on the observed part.
   1. n = m*f rows, the value x everywhere but on the (repeated) diagonal, which is missing, and one label y: by symmetry
      Z is c everywhere, with the c below; lambda1 = L1 / 2, lambda2 = L2 / 2, m = q * q.                                  *)
SameA(f, x, y, m, L2) == LET sN == y * x * (f - 1) sD == x * x * (f - 1) * (f - 1) + f IN 2 * m * (f - 1) * sD * sD + 2 * L2 * f * sN * sN
SameB(f, x, y, q, L1, L2) == LET sN == y * x * (f - 1) sD == x * x * (f - 1) * (f - 1) + f IN
   2 * q * q * (f - 1) * x * sD * sD + 2 * L2 * sN * sN * x * (f - 1) - L1 * q * sD * sD
\* the trace norm is what binds the diagonal
SameBinds(f, x, y, q, L1, L2) == LET sN == y * x * (f - 1) sD == x * x * (f - 1) * (f - 1) + f
                                     A == SameA(f, x, y, q * q, L2) B == SameB(f, x, y, q, L1, L2)
                                 IN B > 0 /\ L1 * q * (f - 2) * sD * sD * A > 4 * L2 * sN * sN * (f * B - x * (f - 1) * A)
SameValue(f, x, y, q, L1, L2, out) == LET A == SameA(f, x, y, q * q, L2) B == SameB(f, x, y, q, L1, L2) IN Abs(out * A - 1000 * B) <= 15 * A
(* 2. lambda1 = 0: the observed entries are kept and a missing one fits the regression *)
Minor(M, c) == TLCEval([r \in 1..(Len(M) - 1) |-> [d \in 1..(Len(M) - 1) |-> M[r + 1][IF d < c THEN d ELSE d + 1]]])
RECURSIVE SumUp(_, _)
SumUp(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumUp(f, n - 1)
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE SumUp([c \in 1..Len(M) |-> (IF c % 2 = 1 THEN 1 ELSE 0 - 1) * M[1][c] * Det(Minor(M, c))], Len(M))
Regression(X, mask, y) ==      \* <<D, W>>: the coefficients (the last one is the intercept) are W[j] / D
  LET f == Len(X[1])
      E == TLCEval([i \in DOMAIN X |-> [j \in 1..(f + 1) |-> IF j > f THEN 1 ELSE X[i][j] * mask[i][j]]])
      M == TLCEval([a \in 1..(f + 1) |-> [c \in 1..(f + 1) |-> SumUp([i \in DOMAIN X |-> E[i][a] * E[i][c]], Len(X))]])
      v == TLCEval([a \in 1..(f + 1) |-> SumUp([i \in DOMAIN X |-> E[i][a] * y[i]], Len(X))])
  IN TLCEval(<<Det(M), [j \in 1..(f + 1) |-> Det([a \in 1..(f + 1) |-> [c \in 1..(f + 1) |-> IF c = j THEN v[a] ELSE M[a][c]]])]>>)
FitsRegression(X, mask, y, out) ==
  LET f == Len(X[1]) R == Regression(X, mask, y) D == R[1] W == R[2] IN
  D > 0 => \A i \in DOMAIN X, j \in 1..f :
     (mask[i][j] = 0 /\ Abs(W[j]) * 10 >= 3 * D /\ \A p \in (1..f) \ {j} : mask[i][p] = 1) =>
       LET t == D * y[i] - W[f + 1] - SumUp([p \in 1..f |-> IF p = j THEN 0 ELSE W[p] * X[i][p]], f) IN
       Abs(out[i][j] * W[j] - 1000 * t) <= (30 + Abs(out[i][j]) \div 200) * Abs(W[j])
(* 3. completing with rank one: every 2x2 minor vanishes *)
RankOne(out) == \A i, p \in DOMAIN out, j, q \in DOMAIN out[1] : Abs(out[i][j] * out[p][q] - out[i][q] * out[p][j]) <= 60000
=============================================================================
