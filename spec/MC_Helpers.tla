----------------------------- MODULE MC_Helpers -----------------------------
(* The definitions are total and consistent on every small instance: the state is one vector, grown by one element. *)
EXTENDS Helpers, Json
CONSTANTS N, V
VARIABLES c
Init == c = <<>>
Next == Len(c) < N /\ \E x \in 0..V : c' = Append(c, x)
Spec == Init /\ [][Next]_c
Orders(n) == {p \in [1..n -> 0..(N - 1)] : Distinct(p)}
Ranking == \A n \in 1..2 :
  /\ \E p \in Orders(Min(n, Len(c))) : Largest(c, n, p)
  /\ \A p, q \in Orders(Min(n, Len(c))) : (Largest(c, n, p) /\ Largest(c, n, q)) =>
       SumSeq([i \in DOMAIN p |-> c[p[i] + 1]]) = SumSeq([i \in DOMAIN q |-> c[q[i] + 1]])
Scaling == c # <<>> =>
  LET m == MinMax(c, -1, 2) IN
  /\ \A i \in DOMAIN c : m[i][1] >= -1 * m[i][2] /\ m[i][1] <= 2 * m[i][2]
  /\ \E i \in DOMAIN c : m[i] = <<-1, 1>>
  /\ Cardinality(Vals(c)) > 1 => \E i \in DOMAIN c : m[i] = <<2, 1>>
  /\ \A i, j \in DOMAIN c : c[i] <= c[j] => m[i][1] * m[j][2] <= m[j][1] * m[i][2]
  \* mean zero, unit variance
  /\ SumSeq([i \in DOMAIN c |-> Dev(c, i)]) = 0
  /\ Spread(c) # 0 => SumSeq([i \in DOMAIN c |-> Dev(c, i) * Dev(c, i)]) = Len(c) * Spread(c)
  /\ (Spread(c) = 0) <=> Cardinality(Vals(c)) = 1
Kernels == LET X == [i \in DOMAIN c |-> <<c[i], 1>>] IN
  /\ \A i, j \in DOMAIN X : Linear(X)[i][j] = Linear(X)[j][i] /\ Poly(X, 1, 0, 1)[i][j] = Linear(X)[i][j]
                            /\ Rbf(X, 2)[i][j] = Gauss(X, 1)[i][j] * 2 /\ (Rbf(X, 1)[i][j] = 0 <=> X[i] = X[j])
                            /\ Dist2(X[i], X[j]) = Linear(X)[i][i] + Linear(X)[j][j] - 2 * Linear(X)[i][j]
Emitted == PrintT("B@@" \o ToJson([c |-> c]))
Laws == Ranking /\ Scaling /\ Kernels /\ Emitted
=============================================================================
